// A simulated operating system: processes, descriptors, pipes, signals, a file system and a loader.
// The process under test is process 1 (the simulated threads); a process it forks is a real fork which asks this kernel for
// everything through a socket while it runs the code under test, and becomes a scripted tool once it executes one.
#pragma once
#include "../core/sched.hpp"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace osim {

enum { K_PIPEFAIL = 40, K_FORKFAIL, K_EXECFAIL, K_DUPFAIL, K_EINTR, K_SHORT, K_OPENFAIL, K_DISKFULL, K_CLOSEFAIL, K_MKDIRFAIL, K_KILLED, K_TOOLFAIL,
    K_EPIPE, K_EXECS, K_BIGOUT, K_NOREAD, K_DAEMON, K_OK, K_FAILED, K_LISTENER, K_SAVES, K_GEN, K_WALLJUMP };

struct Pipe { std::string buf; size_t cap = 65536; int readers = 0, writers = 0; };
struct Inode { bool dir = false; bool readonly = false; std::string data; };
enum FileKind { F_FILE, F_PIPE_R, F_PIPE_W, F_TTY };
struct OpenFile { FileKind kind = F_FILE; Pipe* pipe = nullptr; std::shared_ptr<Inode> ino; std::string path; size_t off = 0; int flags = 0; int refs = 0;
    bool dirty = false; };
struct Fd { OpenFile* of = nullptr; bool cloexec = false; };
struct Proc {
    int pid = 0, ppid = 0;
    std::map<int, Fd> fds;
    bool zombie = false, reaped = false, tool = false, client = false, daemon = false;
    int status = 0;
    int sigpipe = 0;          // 0 default, 1 ignored, 2 handled
    bool pipeBlocked = false; // (tools) SIGPIPE blocked
    std::string name;
};

struct Options { size_t pipeCap = 65536; int sigpipe = 0; int closedStd = 0; bool lineBuffered = false; bool strictChild = true; };
struct World {
    std::map<std::string, std::shared_ptr<Inode>> fs;
    std::string tty;             // what reached the terminal (descriptors 1 and 2 of process 1)
    std::vector<Proc*> procs;
    Options opt;
    int nextPid = 100;
    uint64_t forks = 0, toolFailures = 0;
};
World& world();
Proc& client();
void boot(const Options& o);
int liveChildren();               // of the client: not yet waited for (daemons excluded)
std::string fdList();             // of the client
bool exists(const std::string& path);
std::vector<std::string> listDir(const std::string& dir);
void put(const std::string& path, const std::string& data);
void mkDirs(const std::string& path);
std::string get(const std::string& path);
uint64_t injected();              // number of faults injected so far
uint64_t toolFailed();
bool inChild();                   // in a forked process which has not executed a tool yet
void childEscaped(const char* where);
void addExitHandler();            // the client's exit handler
void flushStdout();
int sigpipeDisposition();
bool sigpipeBlockedHere();
bool sigpipePending();
const std::string& lastScriptOutput();

// parsed products of the simulated tools
struct Obj { std::string name, text; bool pic = false, llvm = false; };
bool parseObj(const std::string& file, Obj& o);
bool parseLib(const std::string& file, bool& dynamic, std::vector<Obj>& objs);

} // namespace osim
