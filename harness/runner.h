// Runs traces in child processes so that a crash or a hang of the code under
// test becomes an event of the trace (which no specification accepts).
#pragma once
#include "common.h"
#include <fcntl.h>
#include <functional>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>

namespace vf {
struct Shared { volatile uint64_t progress; volatile int idx; volatile int len; char note[256]; char script[1 << 20]; };
inline Shared*& shared() { static Shared* s = nullptr; return s; }
inline void progress(const std::string& line) {
    Shared* s = shared(); if (!s) return;
    s->progress++;
    int n = s->len;
    if (n + line.size() + 2 < sizeof(s->script)) { memcpy(s->script + n, line.data(), line.size()); s->script[n + line.size()] = '\n'; s->len = n + line.size() + 1; }
}
inline void progressReset(const std::string& head) { Shared* s = shared(); if (!s) return; s->len = 0; progress(head); }

// body(i, out) runs trace i and writes it to `out`; crash_trace(i, script, why)
// renders the trace of a run that died.
inline int runTraces(const std::string& out_file, int n, int hang_sec, int group,
                     std::function<void()> child_init, std::function<void()> child_fini,
                     std::function<void(int, FILE*)> body,
                     std::function<std::string(int, const std::string&, const std::string&)> crash_trace) {
    shared() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    FILE* f = fopen(out_file.c_str(), "w");
    if (!f) { perror(out_file.c_str()); return 2; }
    fclose(f);
    int i = 0, died = 0;
    while (i < n) {
        int end = std::min(n, i + group);
        shared()->idx = i; shared()->len = 0;
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int dn = open("/dev/null", O_WRONLY); if (dn >= 0 && !getenv("VF_STDERR")) { dup2(dn, 2); dup2(dn, 1); }
            FILE* g = fopen(out_file.c_str(), "a");
            child_init();
            for (int k = i; k < end; ++k) { shared()->idx = k; shared()->len = 0; shared()->note[0] = 0; body(k, g); }
            child_fini();
            fclose(g);
            _exit(0);
        }
        uint64_t last = shared()->progress; int last_idx = shared()->idx; time_t t0 = time(nullptr); int st = 0; bool hung = false;
        for (;;) {
            pid_t w = waitpid(p, &st, WNOHANG);
            if (w == p) break;
            if (shared()->progress != last || shared()->idx != last_idx) { last = shared()->progress; last_idx = shared()->idx; t0 = time(nullptr); }
            else if (time(nullptr) - t0 > hang_sec) { hung = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
            usleep(2000);
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { i = end; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 2) return 2;   // harness error
        int bad = shared()->idx;
        std::string script(shared()->script, shared()->len);
        std::string why = hung ? "hang" : WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
        if (shared()->note[0] && !hung) why += std::string(": ") + shared()->note;
        f = fopen(out_file.c_str(), "a");
        fprintf(f, "%s\n", crash_trace(bad, script, why).c_str());
        fclose(f);
        i = bad + 1;
        if (++died >= 5) break;      // enough evidence
    }
    return 0;
}
}  // namespace vf
