#include "core.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <signal.h>

static std::map<std::string, Cmd>& table() { static std::map<std::string, Cmd> t; return t; }
void reg(const char* name, Cmd c) { table()[name] = c; }

static Tok split(const std::string& l) { std::istringstream s(l); Tok t; std::string w; while (s >> w) t.push_back(w); return t; }

static void emit(FILE* f, const std::string& s) { std::string l = s + "\n"; fwrite(l.data(), 1, l.size(), f); fflush(f); }

static int* progress;               // index of the running command, shared with the parent

// Runs the commands; an exception that a command does not expect ends the scenario.
static int runScenario(Ctx& c, const std::vector<Tok>& cmds) {
    for (size_t k = 0; k < cmds.size(); ++k) {
        const Tok& t = cmds[k];
        *progress = (int) k;
        bool stop = true;
        auto it = table().find(t[0]);
        if (it == table().end()) { fprintf(stderr, "driver: unknown command %s\n", t[0].c_str()); return 97; }
        Args a(t, 1);
        std::string body;
        try {
            body = it->second(c, a);
            stop = false;
        } catch (NoSlot& e) {
            emit(c.out, "{\"e\":\"stopped\",\"cmd\":" + jstr(t[0]) + ",\"slot\":" + jstr(e.name) + "}");
            break;
        } catch (std::logic_error& e) {
            std::string w = e.what();
            if (w.compare(0, 7, "driver:") == 0) { fprintf(stderr, "%s\n", e.what()); return 97; }
            body = "\"throw\":" + jstr(std::string(dynamic_cast<std::invalid_argument*>(&e) ? "invalid_argument" : "logic_error") ) + ",\"what\":" + jstr(w);
        } catch (std::exception& e) {
            body = "\"throw\":\"exception\",\"what\":" + jstr(e.what());
        } catch (...) {
            body = "\"throw\":\"unknown\",\"what\":\"\"";
        }
        if (body.size() > (1u << 21)) {
            emit(c.out, "{\"e\":\"crash\",\"id\":" + jstr(c.id) + ",\"cmd\":" + jstr(t[0]) + ",\"how\":\"a result without bounds\"}");
            break;
        }
        emit(c.out, "{\"e\":" + jstr(t[0]) + (body.empty() ? "" : ",") + body + "}");
        if (stop) break;
    }
    return 0;
}

// usage: driver SCRIPT TRACE [cpu seconds per scenario]
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "w");
    if (!in || !out) return 2;
    int cpu = argc > 3 ? atoi(argv[3]) : 10;
    std::string line;
    std::vector<Tok> cmds;
    std::string id, suite; int p = 0;
    bool open = false;
    int timeouts = 0;                // after a few of them the rest of the script is left out
    progress = (int*) mmap(nullptr, sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto flushScenario = [&]() -> int {
        if (!open) return 0;
        open = false;
        if (timeouts >= 3) return 0;
        *progress = 0;
        emit(out, "{\"e\":\"begin\",\"id\":" + jstr(id) + ",\"suite\":" + jstr(suite) + ",\"p\":" + std::to_string(p) + "}");
        pid_t pid = fork();
        if (pid < 0) return 2;
        if (pid == 0) {
            struct rlimit rl; rl.rlim_cur = cpu; rl.rlim_max = cpu + 1; setrlimit(RLIMIT_CPU, &rl);
            rl.rlim_cur = rl.rlim_max = (rlim_t) 2 << 30; setrlimit(RLIMIT_AS, &rl);
            rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
            rl.rlim_cur = rl.rlim_max = (rlim_t) 64 << 20; setrlimit(RLIMIT_FSIZE, &rl);
            int dn = ::open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            alarm(cpu * 6 + 30);
            Ctx c; c.out = out; c.p = p; c.id = id;
            int rc = runScenario(c, cmds);
            fflush(out);
            _exit(rc);
        }
        int st = 0; waitpid(pid, &st, 0);
        fseek(out, 0, SEEK_END);
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) ++timeouts;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) emit(out, "{\"e\":\"end\",\"id\":" + jstr(id) + "}");
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 97) return 3;
        else emit(out, "{\"e\":\"crash\",\"id\":" + jstr(id) + ",\"cmd\":" + jstr(cmds.empty() ? "" : cmds[*progress][0]) + ",\"how\":" +
                       jstr(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + "}");
        return 0;
    };
    while (std::getline(in, line)) {
        Tok t = split(line);
        if (t.empty() || t[0][0] == '#') continue;
        if (t[0] == "scenario") {            // scenario ID SUITE P
            int rc = flushScenario(); if (rc) return rc;
            id = t.at(1); suite = t.at(2); p = std::stoi(t.at(3)); cmds.clear(); open = true;
        } else cmds.push_back(t);
    }
    int rc = flushScenario();
    fclose(out);
    return rc;
}
