#include <fstream>

#include "cluster.h"
#include "solo.h"
#include "replay.h"
#ifndef NO_COMP
#include "comp.h"
#endif

#include <thread>

using namespace h;

// processor seconds after which a run counts as hung
#ifdef __SANITIZE_THREAD__
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:detect_deadlocks=0"; }
static const int kPatience = 100;
#else
static const int kPatience = 30;
#endif

// Nodes that have nothing to do with each other, each in a thread of its own: every one must
// behave as if it were alone.
static void Apart(int fd, Out* out, uint64_t seed, long run, const Profile& pf) {
  const int n = 8;
  std::vector<FILE*> files(n);
  std::vector<Shared> shs(n);
  std::vector<std::thread> th;
  out->Pending("\"e\":\"die\",\"n\":0");
  for (int k = 0; k < n; k++) {
    files[k] = tmpfile();
    if (!files[k]) abort();
    bool solo = k < 3, comp = k >= 5;
    th.emplace_back([&, k, solo, comp] {
      Out mine(fileno(files[k]), &shs[k]);
      Rng rng(Mix(seed, 100 + k));
      Recorder rec(&mine, Mix(seed, 200 + k) % 1000000007ull);
      mine.Line("{\"e\":\"hdr\",\"run\":" + std::to_string(run) + ",\"seed\":" + N(seed % 1000000) + ",\"solo\":" + B(solo) + "}");
      try {
        if (solo) {
          Solo c(&rec, &rng, pf);
          c.Run();
        } else if (comp) {
#ifndef NO_COMP
          for (const char* kind : {"quorum", "change", "log", "progress", "reads", "quorum"}) Comp(&mine, &rng).Run(kind, pf.steps / 3);
#endif
        } else {
          Profile p2 = pf;
          p2.steps /= 2;
          p2.sw.clear();
          Cluster c(&rec, &rng, p2);
          c.Run();
        }
      } catch (const RunOver&) {
      }
    });
  }
  for (auto& t : th) t.join();
  for (auto f : files) {
    std::string text;
    char buf[65536];
    size_t got;
    rewind(f);
    while ((got = fread(buf, 1, sizeof(buf), f)) > 0) text.append(buf, got);
    fclose(f);
    size_t off = 0;
    while (off < text.size()) {
      ssize_t w = write(fd, text.data() + off, text.size() - off);
      if (w <= 0) _exit(7);
      off += w;
    }
  }
}

int main(int argc, char** argv) {
  std::map<std::string, std::string> o = {{"mode", "cluster"}, {"seed", "1"}, {"runs", "10"}, {"out", "/tmp/t.ndjson"}, {"first", "0"}, {"profile", ""}};
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto p = a.find('=');
    if (p != std::string::npos) o[a.substr(0, p)] = a.substr(p + 1);
  }
#ifdef NO_COMP
  if (o["mode"] == "components") return 1;
#else
  if (o["mode"] == "components") return 0;
#endif
  auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  int fd = open(o["out"].c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (fd < 0) return 2;
  uint64_t seed = strtoull(o["seed"].c_str(), nullptr, 10);
  long runs = atol(o["runs"].c_str()), first = atol(o["first"].c_str());
  Profile pf;
  std::stringstream ss(o["profile"]);
  std::string kv;
  while (std::getline(ss, kv, ',')) {
    auto p = kv.find(':');
    if (p == std::string::npos) continue;
    std::string k = kv.substr(0, p);
    double v = atof(kv.substr(p + 1).c_str());
    if (k == "steps") pf.steps = static_cast<int>(v);
    else if (k == "final") pf.final_p = v;
    else if (k == "pv") pf.pv = v;
    else if (k == "cq") pf.cq = v;
    else if (k == "lease") pf.lease = v;
    else if (k == "dpf") pf.dpf = v;
    else if (k == "small") pf.small = v;
    else if (k == "swarm") pf.swarm = v;
    else if (k == "big") pf.big = v;
    else if (k == "bulk") pf.bulk = v;
    else if (k == "slow") pf.slow = v;
    else if (k == "boot") pf.boot = v;
    else if (k == "single") pf.solo_voter = v;
    else if (k.compare(0, 2, "s.") == 0 || k.compare(0, 2, "m.") == 0) pf.sw[k] = v;
    else pf.w[k] = v;
  }
  Scene sc;
  std::vector<std::vector<std::string>> walks;
  if (o["mode"] == "replay") {
    sc.ids = IdList(o["ids"]);
    sc.voters = IdList(o["v"]);
    sc.learners = IdList(o["l"]);
    sc.outgoing = IdList(o["o"]);
    sc.autoleave = o["al"] == "1";
    sc.atomic = o["atomic"] == "1";
    sc.cf.et = 4;
    sc.cf.cq = o["cq"] == "1";
    sc.cf.pv = o["pv"] == "1";
    sc.cf.lease = o["lease"] == "1";
    sc.cf.infl = atol(o["infl"].c_str());
    auto lim = [&](const char* k) { return o[k] == "1000000000" ? UINT64_MAX : strtoull(o[k].c_str(), nullptr, 10); };
    sc.cf.maxmsg = lim("maxmsg");
    sc.cf.maxcomm = lim("maxcomm");
    std::ifstream in(o["in"]);
    std::string line, act;
    while (std::getline(in, line)) {
      walks.emplace_back();
      std::istringstream is(line);
      while (std::getline(is, act, '\t')) walks.back().push_back(act);
    }
    first = 0;
    runs = static_cast<long>(walks.size());
  }
  int hung = 0;
  for (long r = first; r < first + runs; r++) {
    std::string hdr = "{\"e\":\"hdr\",\"run\":" + std::to_string(r) + ",\"seed\":" + N(seed) + ",\"solo\":" + B(o["mode"] == "solo") + "}\n";
    if (write(fd, hdr.data(), hdr.size()) < 0) return 2;
    bool ended = Isolated(fd, sh, kPatience, [&](Out* out) {
      Rng rng(Mix(seed, r));
      Recorder rec(out, Mix(seed, r) % 1000000007ull);
      if (o["mode"] == "cluster") {
        Cluster c(&rec, &rng, pf);
        c.Run();
      } else if (o["mode"] == "replay") {
        Replay c(&rec, &rng, sc);
        c.Run(walks[r]);
      } else if (o["mode"] == "solo") {
        Solo c(&rec, &rng, pf);
        c.Run();
      }
      else if (o["mode"] == "apart") {
        Apart(fd, out, Mix(seed, r), r, pf);
      }
#ifndef NO_COMP
      else if (o["mode"] == "comp") {
        Comp c(out, &rng);
        if (o["kind"] == "quorumall") c.QuorumAll(static_cast<int>(r - first), static_cast<int>(runs));
        else c.Run(o["kind"], pf.steps);
      }
#endif
    });
    if (!ended && ++hung == 2) break;   // two of them are enough
  }
  std::string end = "{\"e\":\"end\"}\n";
  if (write(fd, end.data(), end.size()) < 0) return 2;
  return 0;
}
