// kvmain PROFILE SEED NTRACES LEN OUT [SCRIPT]: sequential histories.
#include "kvgen.h"
#include "runner.h"
#include <fstream>
using namespace vf;

int main(int argc, char** argv) {
    if (argc < 6) return 2;
    std::string prof = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); int n = atoi(argv[3]), len = atoi(argv[4]); std::string out = argv[5];
    std::string root = scratch_root() + "/kv_" + prof + "_" + argv[2];
    mk_dir(root);
    // Scripts: each line "cfgstring|op;op;op"
    std::vector<std::string> scripts;
    if (argc > 6) { std::ifstream in(argv[6]); std::string l; while (std::getline(in, l)) if (!l.empty()) scripts.push_back(l); n = scripts.size(); }
    unlink((out + ".scripts").c_str());
    Exec ex; ex.onOp = [](const std::string& l) { progress(l); };
    auto body = [&](int i, FILE* g) {
        Cfg c; Rng r(seed * 1000003 + i);
        if (!scripts.empty()) c = Cfg::parse(scripts[i].substr(0, scripts[i].find('|')));
        else c = Gen::config(prof, r);
        std::string nm = prof + "-" + std::to_string(seed) + "-" + std::to_string(i);
        progressReset(c.str());
        std::string tdir = root + "/t" + std::to_string(i);   // unique: files are removed by name in the background
        ex.begin(c, tdir, nm);
        if (!scripts.empty()) {
            std::stringstream ss(scripts[i].substr(scripts[i].find('|') + 1)); std::string op;
            while (std::getline(ss, op, ';')) if (!op.empty()) ex.exec(op);
            for (auto& e : std::map<int, DB*>(ex.h)) ex.observe(e.first, !c["logonly"]);
            ex.finish();
        } else {
            Gen gen(ex, r, prof, len);
            gen.run();
        }
        ex.tr.write(g);
        // The script is kept beside the trace, for replays.
        if (FILE* sf = fopen((out + ".scripts").c_str(), "a")) {
            fprintf(sf, "%s|", ex.tr.name.c_str()); fprintf(sf, "%s|", c.str().c_str());
            for (auto& l : ex.script) fprintf(sf, "%s;", l.c_str());
            fprintf(sf, "\n"); fclose(sf);
        }
        rm_tree(tdir);
    };
    int rc = runTraces(out, n, 30, 40,
        [&]() { DB::init(quietGlobal(root)); if (!getenv("VF_STDERR")) { signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); } },
        [&]() { DB::shutdown(); },
        body,
        [&](int i, const std::string& script, const std::string& why) {
            Trace t; t.name = prof + "-" + std::to_string(seed) + "-" + std::to_string(i);
            std::stringstream ss(script); std::string l; std::getline(ss, l); t.cfg = Cfg::parse(l).json();
            std::string flat; for (char ch : script) flat.push_back(ch == '\n' ? ';' : ch);
            t.add(J().str("op", "crash").str("why", why).str("script", flat));
            std::string s = "{\"name\":\"" + t.name + "\",\"cfg\":" + t.cfg + ",\"ev\":[" + t.ev[0] + "]}";
            return s; });
    rm_tree(root);
    return rc;
}
