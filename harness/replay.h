// Behaviours of the model (spec/Cluster.tla) carried out by real nodes.
#pragma once
#include <fstream>
#include <sstream>

#include "cluster.h"

namespace h {

// What the model calls a message (MsgKey in spec/Graph.tla).
inline std::string MsgKey(const raftpb::Message& m) {
  std::string r = raftpb::MessageType_Name(m.type());
  for (uint64_t v : {m.from(), m.to(), m.term(), m.logterm(), m.index(), m.commit(), static_cast<uint64_t>(m.reject()), m.rejecthint(),
                     m.has_snapshot() ? static_cast<uint64_t>(m.snapshot().metadata().index()) : 0})
    r += "/" + N(v);
  r += "/";
  bool nolog = m.type() == raftpb::MsgProp || m.type() == raftpb::MsgReadIndex || m.type() == raftpb::MsgReadIndexResp;
  for (auto& e : m.entries()) r += "." + N(nolog ? 0 : e.term());
  r += "/" + m.context();
  return r;
}

struct Scene {
  std::vector<uint64_t> ids, voters, learners, outgoing;
  bool autoleave = false, atomic = true;
  Conf cf;
};

class Replay : public Base {
 public:
  Replay(Recorder* rec, Rng* rng, const Scene& sc) : Base(rec, rng), sc_(sc) {}
  long missed = 0;

  void Run(const std::vector<std::string>& acts) {
    Setup();
    for (auto& a : acts) Act(a);
    rec_->Note("\"e\":\"info\",\"missed\":" + N(missed));
  }

 private:
  void SendAll(Node& nd) override {
    for (auto& m : rec_->SendOut(nd)) {
      if (!nodes_.count(m.to())) continue;
      net_[MsgKey(m)] = m;
    }
  }
  void Setup() {
    raftpb::Snapshot s;
    s.mutable_metadata()->set_index(1);
    s.mutable_metadata()->set_term(1);
    auto* cs = s.mutable_metadata()->mutable_conf_state();
    for (auto v : sc_.voters) cs->add_voters(v);
    for (auto v : sc_.outgoing) cs->add_voters_outgoing(v);
    for (auto v : sc_.learners) cs->add_learners(v);
    cs->set_auto_leave(sc_.autoleave);
    s.set_data("s" + Hex(7));
    rec_->Note("\"e\":\"seed\",\"i\":1,\"dg\":" + Q(Hex(7)) + ",\"cs\":" + CSJson(*cs));
    std::set<uint64_t> in;
    for (auto* l : {&sc_.voters, &sc_.outgoing, &sc_.learners}) in.insert(l->begin(), l->end());
    for (auto id : sc_.ids) {
      Node& nd = nodes_[id];
      nd.id = id;
      nd.cf = sc_.cf;
      nd.st = std::make_shared<Store>(rec_->logger());
      if (in.count(id)) {
        nd.st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(s));
        raftpb::HardState hs;
        hs.set_term(1);
        hs.set_commit(1);
        nd.st->SetHardState(hs);
        nd.synced = hs;
      }
      rec_->Create(nd, 0);
      if (in.count(id)) rec_->RestoreApp(nd, s);
    }
  }
  void After(Node& nd) {
    if (sc_.atomic) FullReady(nd, 3);
  }
  // Let time pass at a node until its election timer says `until'.
  void Ticks(Node& nd, int64_t until) {
    auto* r = nd.rn->GetRaft();
    for (int k = 0; k < 12 && r->ElectionElapsed() < until; k++) {
      int64_t before = r->ElectionElapsed();
      if (r->State() != kLeader && before + 1 >= r->RandomizedElectionTimeout()) break;
      rec_->Tick(nd);
      if (r->ElectionElapsed() <= before) break;       // it went off
    }
  }
  void Act(const std::string& a) {
    std::istringstream is(a);
    std::string op, x, y;
    is >> op;
    if (op == "deliver" || op == "dup" || op == "lose") {
      std::getline(is, x);
      x = x.substr(1);
      auto it = net_.find(x);
      if (it == net_.end()) {
        missed++;
        return;
      }
      raftpb::Message m = it->second;
      if (op != "dup") net_.erase(it);
      if (op == "lose") return;
      Node& nd = nodes_[m.to()];
      rec_->Step(nd, m);
      After(nd);
      return;
    }
    is >> x >> y;
    Node& nd = nodes_[strtoull(x.c_str(), nullptr, 10)];
    uint64_t to = strtoull(y.c_str(), nullptr, 10);
    if (op == "camp") rec_->Camp(nd);
    else if (op == "prop") rec_->Prop(nd, y);
    else if (op == "conf") {
      raftpb::ConfChangeV2 cc;
      std::istringstream cs(y);
      std::string f;
      std::vector<uint64_t> v;
      while (std::getline(cs, f, ',')) v.push_back(strtoull(f.c_str(), nullptr, 10));
      cc.set_transition(static_cast<raftpb::ConfChangeTransition>(v[0]));
      for (size_t k = 1; k + 1 < v.size(); k += 2) {
        auto* c = cc.add_changes();
        c->set_type(static_cast<raftpb::ConfChangeType>(v[k]));
        c->set_node_id(v[k + 1]);
      }
      rec_->PropCC(nd, cc);
    } else if (op == "beat") rec_->Tick(nd);
    else if (op == "check") Ticks(nd, nd.cf.et);
    else if (op == "lease") { Ticks(nd, nd.cf.et); return; }
    else if (op == "read") rec_->Read(nd, y, true);
    else if (op == "xfer") rec_->Xfer(nd, to);
    else if (op == "unreach") rec_->Unreach(nd, to);
    else if (op == "fail") rec_->SnapSt(nd, to, true);
    else if (op == "finish") rec_->SnapSt(nd, to, false);
    else if (op == "handle") { FullReady(nd, 1); return; }
    else if (op == "crash") {
      auto hs = std::get<0>(nd.st->InitialState());
      auto snap = std::get<0>(nd.st->MemoryStorage::SnapShot());
      Crash(nd);
      rec_->Create(nd, 0);
      nd.app = AppState();
      if (snap->metadata().index() > 0) rec_->RestoreApp(nd, *snap);
      for (auto it = nd.hist.begin(); it != nd.hist.end();) it = it->first > nd.app.applied ? nd.hist.erase(it) : std::next(it);
      rec_->Note("\"e\":\"app\",\"n\":" + N(nd.id) + ",\"ai\":" + N(nd.app.applied));
      return;
    } else if (op == "snap") {
      uint64_t i = nd.app.applied;
      if (i <= std::get<0>(nd.st->MemoryStorage::SnapShot())->metadata().index() || !nd.hist.count(i) || std::get<0>(nd.st->InitialState()).commit() < i ||
          nd.hist[i].cs.voters_size() == 0) {
        missed++;
        return;
      }
      rec_->MakeSnapshot(nd, i, false);
      rec_->Compact(nd, i);
      return;
    } else {
      missed++;
      return;
    }
    After(nd);
  }

  Scene sc_;
  std::map<uint64_t, Node> nodes_;
  std::map<std::string, raftpb::Message> net_;
};

inline std::vector<uint64_t> IdList(const std::string& s) {
  std::vector<uint64_t> r;
  std::istringstream is(s);
  std::string f;
  while (std::getline(is, f, '.')) if (!f.empty()) r.push_back(strtoull(f.c_str(), nullptr, 10));
  return r;
}
}  // namespace h
