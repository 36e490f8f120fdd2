// The C-level world: handles, cursors, files, and the reference model.
#pragma once
#include "core.h"
extern "C" {
#include "ffdb_db.h"
}
enum K {
  K_OPEN,      // slot file mode cachepages flags(bit0 rearrange) infobits
  K_CLOSE,     // slot
  K_PUT,       // slot kid vid len flag
  K_GET,       // slot kid bufmode extra
  K_SYNC,      // slot
  K_SCAN,      // slot dir(0 fwd,1 back) mode(0 key+data,1 key only,2 user buffers) stop_after
  K_CUR_OPEN,  // slot cur
  K_CUR_GET,   // cur flag mode
  K_CUR_CLOSE, // cur
  K_VERIFY,    // slot   every key of the model, plus absent keys
  K_SET_CFG,   // slot index cid
  K_GET_CFG,   // slot index/confignum
  K_SET_ALL,   // slot cid n
  K_GET_ALL,   // slot
  K_SET_UI,    // slot vid len
  K_GET_UI,    // slot bufmode
  K_CRASH,     // power? subset seed        between operations
  K_CORRUPT,   // file pos-seed kind bits
  K_MTREAD,    // marker: the ops with t>0 run as threads here
  K_UNLINK,    // file
  K_HOSTILE,   // slot: invalid call, must be refused without effect; a1 = which
  K_QUOTA,     // free_pages lift?: from now on only this many more pages fit on the disk; a1: no limit
  K_LOAD,      // file golden
  K_SAVED,     // file: what page rearrangement saves
  K_XOPEN,     // slot file mode cachepages flags(1 rearrange, 2 on the open object, 4 other constructor) kind: C++ store
  K_XUPD,      // slot kid vid index lendelta
  K_XDONE,     // slot
  K_XMERGE,    // slot mask(configurations with a source) memory byinfo firstfile
  K_XOPENM,    // slot file0 file1 file2(-1: none) kind
  K_XEXIST,    // slot kid
  K_XODD,      // kind variant seed nrecords: a store with one record that is no object of its classes
  K_BADOPEN,   // file variant seed access api: opening what is not a proper database
  K_NK
};
extern const char *k_names[K_NK];

struct Val { i64 vid = 0; i64 len = 0; bool operator==(const Val &o) const { return vid == o.vid && len == o.len; } bool operator<(const Val &o) const { return vid != o.vid ? vid < o.vid : len < o.len; } };
std::string val_bytes(const Val &v);
std::string key_bytes(const Plan &p, int file, int kid);
int max_key(int bsize);

// a database file written earlier, with what it holds
struct Golden { std::map<std::string, i64> par; std::vector<std::vector<std::string>> lines; std::map<int, i64> len; std::string image; };
bool golden_read(int idx, Golden &g);
extern std::string golden_dir, golden_out;
void engine_run(Plan &p);          // executes the plan inside R
