// Simulated files: paths below /simfs/ live in memory and every read, write, open and close
// of them can be cut short, interrupted, failed or made the last thing the process does.
#pragma once
#include <cstdint>
#include <string>
struct IoPolicy {              // one per direction; offsets count the bytes moved so far in that direction
    int chunk = 0;             // largest number of bytes per call, 0: no limit
    int eintr = 0;             // every n-th call is interrupted, 0: never
    int64_t err_at = -1;       // fail when this many bytes were moved
    int err_no = 5, err_times = 1;   // EIO / ENOSPC ...; how often (large: for ever)
    int64_t crash_at = -1;     // the process ends when this many bytes were moved
    int open_err = 0;          // errno for opening, 0: works
    int close_err = 0; int64_t close_lose = 0;     // closing fails and the last bytes are lost
    int crash_open = 0;        // the process ends before (1) / after (2) opening
    int crash_close = 0;       // the process ends before (1) / after (2) closing
};
struct IoStats { uint64_t reads, writes, shorts, eintrs, errs, fulls, crashes, closeerrs, openerrs, rbytes, wbytes, opened_w, ooms, metas, metaerrs; };
struct SimFsNode { char path[120]; int fd; };       // memory files, their numbers are shared by forked processes
struct MetaPolicy { int at = 0, err = 0, crash = 0; };     // the at-th rename, unlink, truncate, sync, chmod or link fails, or the process ends before (1) / after (2) it
struct SimFsShared { SimFsNode nodes[16]; MetaPolicy meta; IoPolicy rd, wr; IoStats st; int rleft, wleft; uint64_t rcalls, wcalls; };
extern SimFsShared *simfs;     // shared with the processes of the tool
void simfs_init();
void simfs_reset_policy();
void simfs_put(const std::string &path, const std::string &content);
bool simfs_get(const std::string &path, std::string &content);
void simfs_remove(const std::string &path);
void simfs_sweep(const std::string &keep);     // removes all other files
