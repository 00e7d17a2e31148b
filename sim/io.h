// Simulated kernel objects: public API for workloads
#pragma once
#include "sim.h"
#include <vector>
namespace sim {
// ---- file system ----
void fsPut(const char *path, const std::string &data);      // durable; creates parents
void fsMkdir(const char *path);
bool fsGet(const char *path, std::string &out);             // what a reader sees now
bool fsExists(const char *path);
std::string fsType(const char *path);                       // "file", "dir", "link", ""
std::vector<std::string> fsList(const char *dir);           // sorted names
std::string fsTree(const char *dir);                        // canonical dump of the subtree
void fsCapacity(uint64_t bytes);                            // 0 = unlimited
void fsXdev(const char *dir);                               // rename across the border of this subtree fails with EXDEV
int openFds();                                              // descriptors above stdio
std::string openFdNames();
std::string stdioText(int fd);                              // what was written to descriptor 1 / 2
// runs fn as a process; a crash (if chosen) happens at one of the first maxOps I/O operations.
// returns true if it crashed. All its threads vanish and only durable state survives.
// power = false: the process is only killed, what it wrote stays.
bool runUntilCrash(const std::function<void()> &fn, int maxOps, bool power = true);
void dieHere();                                             // the process ends now (killed), inside of runUntilCrash only
bool crashedNow();
int ioOps();                                                // I/O operations so far
// ---- network ----
void netLatency(int minUs, int maxUs);
void netBuffer(int bytes);
void pipeCapacity(int bytes);                               // of pipes made later; 0 = drawn per pipe
void netBlackhole(bool on);                                 // connection attempts get no answer
void netReset(int fd);                                      // connection of this descriptor is torn down by the network
int netConnections();                                       // live connection ends
// ---- processes ----
// Programs are what execve() finds; they run as fibers with their own descriptors, directory and pid.
struct ProcInfo { int pid, argc; const char **argv, **envp; };
typedef std::function<int(const ProcInfo &)> ProgramFn;
void setProgram(const char *path, const ProgramFn &fn);     // result is the exit code
int startProcess(const std::function<int()> &fn, bool killable = false);   // returns pid; killable: fault proc_kill may end it in any system call
int currentPid();
int procState(int pid);                                     // 0 running 1 zombie 2 reaped -1 never existed
int procStatus(int pid);                                    // wait status
uint64_t procExitTime(int pid);                             // us
int zombies();                                              // of the current process
int children();                                             // not reaped children of the current process
void waitProcess(int pid);                                  // waits for the end and reaps
void killProcess(int pid);
void ignoreTerm(bool on);                                   // current process
void raiseHere(int sig);                                    // current process dies by a signal
std::string procFds();                                      // open descriptors of the current process
std::string procCwd();
void sharedMemory(bool on);                                 // shared mappings are the same memory in all processes
void closeStd(int fd);                                      // the current process has no descriptor 0, 1 or 2
void disown(int pid);                                       // reaped by init when it ends
int mappings();                                             // memory mappings of the current process
int lockersOf(const char *path);
}
