// Runs command lines through the real CommandLineArgs, each in a child process.
// usage: cmdline_driver OUT seed n
#include "vjson.h"
#include "command_line_args.h"
#include <sys/wait.h>
#include <fcntl.h>

static FILE* out;
static const std::vector<std::string> options = {"-f, --infile", "-m, --micro-filetype", "-e, --euler-angles", "-g, --feature-ids", "-p, --phase-ids", "-u, --euler-unit", "-h, --help"};
static std::string all_of(int fd) { std::string s; char b[4096]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) s.append(b, k); close(fd); return s; }

static void run(const std::vector<std::string>& args) {
    doing("command line " + jqs(args));
    int so[2], re[2];
    if (pipe(so) || pipe(re)) exit(9);
    fflush(out);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(so[1], 1);
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
        close(so[0]); close(re[0]);
        std::vector<std::string> a = args; a.insert(a.begin(), "evpfft");
        std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr);
        CommandLineArgs c;
        c.parse_command_line((int)a.size(), v.data());
        std::string r = "{\"f\":" + jq(c.input_filename) + ",\"m\":" + jn(c.micro_filetype) + ",\"e\":" + jq(c.EulerAnglesFullPath) + ",\"g\":" + jq(c.FeatureIdsFullPath) + ",\"p\":" + jq(c.PhaseIdsFullPath) + ",\"u\":" + jn(c.EulerAnglesUnit) + "}";
        ssize_t w = write(re[1], r.data(), r.size()); (void)w;
        std::cout.flush();
        _exit(0);
    }
    close(so[1]); close(re[1]);
    std::string help = all_of(so[0]), set = all_of(re[0]);
    int st = 0; waitpid(pid, &st, 0);
    alarm(0);
    int status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    std::vector<std::string> told;
    for (auto& o : options) if (help.find(o) != std::string::npos) told.push_back(o);
    fprintf(out, "{\"args\":%s,\"status\":%d,\"set\":%s,\"told\":%s}\n", jqs(args).c_str(), status, set.empty() ? "[]" : ("[" + set + "]").c_str(), jqs(told).c_str());
}

int main(int argc, char** argv) {
    install_watchdog();
    setenv("LC_ALL", "C", 1); unsetenv("POSIXLY_CORRECT");
    out = fopen(argv[1], "w");
    Rng r(atoi(argv[2]));
    unsigned n = atoi(argv[3]);
    const std::vector<std::string> tok = {"-f", "-fx", "--infile", "--infile=a", "--infile=", "--in", "-m", "-m1", "-m2", "--micro-filetype=1", "--micro-filetype", "--e", "--euler-", "--euler-u=0", "--euler-a=p q", "--euler-angles", "-e", "-g", "-p", "-u", "-u1",
        "--feature-ids=g", "--feature-ids", "--phase-ids", "--p=p", "-h", "--he", "--help=1", "--help", "--", "-", "", "x", "1", "-1", " 12y", "+0", "-x", "--other", "--infilex", "-fm", "--=", "-:", "-u-1", "-hf", "-F", "-infile", "--infile==", "-f=", "-m0x", "-e/a/b", "--Infile=a"};
    run({});
    for (auto& a : tok) { run({a}); for (auto& b : tok) run({a, b}); }
    const std::vector<std::string> vals = {"a.in", "1", "0", "2", "-1", "", "--", "-f", "/d/e g", "1x", "=", "--infile"};
    const std::vector<std::string> nm = {"infile", "micro-filetype", "euler-angles", "feature-ids", "phase-ids", "euler-unit"};
    const std::string ch = "fmegpu";
    auto number = [&](int o) { return o == 1 || o == 5; };
    for (unsigned i = 0; i < n; i++) {
        std::vector<std::string> a;
        unsigned k = 1 + r(9), mode = r(4);
        if (mode == 0) { for (unsigned j = 0; j < k; j++) a.push_back(r.pick(tok)); run(a); continue; }
        std::vector<int> os;
        if (mode == 1) for (unsigned j = 0; j < k; j++) os.push_back(r(6));
        else { for (int o = 0; o < 6; o++) if (r(12)) os.push_back(o); for (size_t j = os.size(); j > 1; j--) std::swap(os[j - 1], os[r(j)]); if (r(4) == 0) os.push_back(r(6)); }
        for (int o : os) {
            std::string v = number(o) ? (r(3) ? "1" : r.pick(vals)) : (r(6) ? std::string("/d/") + ch[o] : r.pick(vals));
            switch (r(5)) {
            case 0: a.push_back(std::string("-") + ch[o]); a.push_back(v); break;
            case 1: a.push_back(std::string("-") + ch[o] + v); break;
            case 2: a.push_back("--" + nm[o]); a.push_back(v); break;
            case 3: a.push_back("--" + nm[o] + "=" + v); break;
            default: a.push_back("--" + nm[o].substr(0, 1 + r(nm[o].size())) + "=" + v);
            }
            if (r(10) == 0) a.push_back(r.pick(tok));
        }
        run(a);
    }
    fclose(out);
    return 0;
}
