// Runs one piece of work in a child process and reports how it ended.
#pragma once
#include "vjson.h"
#include <fcntl.h>
#include <functional>
#include <sys/wait.h>

struct Ended { std::string how, text, err; };  // how: ok, refused, crash
// work writes its answer to the given string; it may throw, exit, abort through the stand-ins, or die.
inline Ended in_child(const std::function<std::string()>& work, int seconds = 20)
{
    int p[2], q[2];
    if (pipe(p) || pipe(q)) { perror("pipe"); _exit(3); }
    fflush(stdout); fflush(stderr); std::cout.flush();
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]); close(q[0]);
        int null = open("/dev/null", O_WRONLY);
        dup2(null, 1); dup2(q[1], 2);
        for (int s : {SIGALRM, SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, SIG_DFL);
        alarm(seconds);
        std::string r; int code = 55;
        try { r = "+" + work(); code = 54; }
        catch (const std::exception& e) { fprintf(stderr, "exception: %s\n", e.what()); }
        catch (...) { fprintf(stderr, "exception\n"); }
        std::cout.flush(); fflush(stdout); fflush(stderr);
        size_t done = 0;
        while (done < r.size()) { ssize_t k = write(p[1], r.data() + done, r.size() - done); if (k <= 0) break; done += k; }
        _exit(code);
    }
    close(p[1]); close(q[1]);
    Ended e;
    char b[65536]; ssize_t k;
    while ((k = read(p[0], b, sizeof b)) > 0) e.text.append(b, k);
    while ((k = read(q[0], b, sizeof b)) > 0) if (e.err.size() < 4000) e.err.append(b, k);
    close(p[0]); close(q[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 54 && !e.text.empty()) { e.how = "ok"; e.text.erase(0, 1); }
    else if (WIFEXITED(st) && WEXITSTATUS(st) != 86) e.how = "refused";       // exception, exit() or Kokkos::abort
    else { e.how = "crash"; e.err += WIFSIGNALED(st) ? " (signal " + jn(WTERMSIG(st)) + ")" : " (memory error)"; }
    return e;
}
