// Further parts of the library: a storage used by several threads, and what stops a node.
// Included inside class Comp.

  // ---------------------------------------------- a storage under several threads
  // One thread writes to the storage, as the application does, while others read from it, as
  // the node does.  Which state a read may have seen is known from counters read around it.
  struct Read {
    int lo, hi;                       // numbers of the states that may have been seen
    char kind;
    uint64_t a = 0, b = 0, mx = 0;    // arguments
    uint64_t r = 0;
    EntryPtrs es;
    SnapshotPtr sn;
    std::string c, text;
  };
  void Shared(int steps) {
    for (int k = 0; k < steps / 4; k++) SharedOnce();
  }
  void SharedOnce() {
    const int readers = 3, n = 14;
    MemoryStorage md(lg_);            // what the storage would be if used by one thread only
    MemoryStorage st(lg_);
    std::vector<std::string> ops, hist;
    std::vector<std::function<void(MemoryStorage&)>> todo;
    uint64_t t = tb_ + 1;
    auto add = [&](const std::string& text, const std::function<void(MemoryStorage&)>& f) {
      ops.push_back(text);
      todo.push_back(f);
      f(md);
      hist.push_back("{" + StoreJson(md) + "}");
    };
    {
      auto sn = Snap(xb_ + g_.In(4, 6), t);
      md.ApplySnapshot(std::make_shared<raftpb::Snapshot>(sn));
      st.ApplySnapshot(std::make_shared<raftpb::Snapshot>(sn));
      EntryPtrs es;
      for (int i = 1; i <= 6; i++) es.push_back(E(sn.metadata().index() + i, t));
      md.Append(es);
      st.Append(es);
      hist.push_back("{" + StoreJson(md) + "}");
    }
    uint64_t least = std::get<0>(md.FirstIndex()), most = std::get<0>(md.LastIndex());
    int style = g_.Below(4);      // all sorts of writes, or mostly one
    for (int k = 0; k < n; k++) {
      uint64_t sb = std::get<0>(md.FirstIndex()) - 1, last = std::get<0>(md.LastIndex());
      uint64_t si = std::get<0>(md.SnapShot())->metadata().index();
      switch (style == 1 ? 0 : style == 2 ? g_.Pick(std::vector<int>{0, 4, 5}) : style == 3 ? g_.Pick(std::vector<int>{0, 0, 3}) : g_.Below(7)) {
        case 0:
        case 1:
        case 2: {
          uint64_t from = g_.P(0.4) ? last + 1 : g_.In(sb + 1, last + 1);
          if (from <= last) t++;
          EntryPtrs es;
          int m = g_.In(1, 4);
          for (int i = 0; i < m; i++) es.push_back(E(from + i, t));
          add("{" + Op("store.append") + ",\"en\":" + EntsJson(es) + "}", [es](MemoryStorage& s) { s.Append(es); });
          break;
        }
        case 3: {
          auto sn = std::make_shared<raftpb::Snapshot>(Snap(g_.P(0.2) ? si : last + g_.In(1, 2), t));
          add("{" + Op("store.applysnap") + ",\"sn\":" + SnapJson(*sn) + "}", [sn](MemoryStorage& s) { s.ApplySnapshot(sn); });
          break;
        }
        case 4: {
          if (std::max(si + 1, sb) > last) break;
          uint64_t i = g_.In(std::max(si + 1, sb), last);
          std::string d = "d" + std::to_string(++count_);
          raftpb::ConfState cs;
          for (uint64_t v = ib_ + 1; v <= ib_ + 4; v++) {
            if (g_.P(0.5)) cs.add_voters(v);
            else cs.add_learners(v);
          }
          add("{" + Op("store.createsnap") + ",\"i\":" + N(i) + ",\"nc\":false,\"cs\":" + CSJson(cs) + ",\"d\":" + Q(d) + "}",
              [i, cs, d](MemoryStorage& s) { s.CreateSnapshot(i, &cs, d); });
          break;
        }
        case 5: {
          uint64_t i = g_.In(sb, last);
          add("{" + Op("store.compact") + ",\"i\":" + N(i) + "}", [i](MemoryStorage& s) { s.Compact(i); });
          break;
        }
        case 6: {
          raftpb::HardState hs;
          hs.set_term(t);
          hs.set_commit(last);
          add("{" + Op("store.seths") + ",\"hs\":" + HSJson(hs) + "}", [hs](MemoryStorage& s) { s.SetHardState(hs); });
          break;
        }
      }
      most = std::max(most, std::get<0>(md.LastIndex()));
    }
    std::string ini = "\"op\":\"store.shared\"";
    out_->Pending("\"e\":\"comp\",\"n\":0," + ini);
    std::atomic<int> started{0}, done{0}, ready{0};
    std::vector<std::vector<Read>> rd(readers);
    std::vector<std::thread> th;
    for (int r = 0; r < readers; r++) {
      uint64_t seed = g_.Below(1u << 30);
      th.emplace_back([&, r, seed] {
        Rng g(seed);
        auto& mine = rd[r];
        mine.resize(40);
        for (auto& q : mine) {
          q.kind = "fltttsseeee"[g.Below(11)];
          q.a = g.In(least - 1, most + 1);
          q.b = g.In(q.a, most + 1);
          q.mx = g.P(0.5) ? UINT64_MAX : g.In(0, 60);
        }
        ready++;
        while (ready.load() <= readers) {}
        size_t k = 0;
        for (; k < mine.size(); k++) {
          auto& q = mine[k];
          q.lo = done.load();
          try {
            Status s;
            switch (q.kind) {
              case 'f': std::tie(q.r, s) = st.FirstIndex(); break;
              case 'l': std::tie(q.r, s) = st.LastIndex(); break;
              case 't': std::tie(q.r, s) = st.Term(q.a); break;
              case 's': std::tie(q.sn, s) = st.SnapShot(); break;
              case 'e': std::tie(q.es, s) = st.Entries(q.a, q.b, q.mx); break;
            }
            q.hi = started.load();
            q.c = Code(s);
          } catch (const FatalError&) {
            q.hi = started.load();
            q.c = "\"fatal\"";
          }
          if (q.sn) q.text = SnapJson(*q.sn);
          if (q.lo == static_cast<int>(todo.size())) break;
        }
        mine.resize(std::min(mine.size(), k + 1));
      });
    }
    while (ready.load() < readers) {}
    ready++;
    for (size_t k = 0; k < todo.size(); k++) {
      started.store(static_cast<int>(k) + 1);
      todo[k](st);
      done.store(static_cast<int>(k) + 1);
    }
    for (auto& x : th) x.join();
    std::string line = "{\"e\":\"comp\",\"n\":0," + ini + ",\"h\":[";
    for (size_t k = 0; k < hist.size(); k++) line += (k ? "," : "") + hist[k];
    line += "],\"w\":[";
    for (size_t k = 0; k < ops.size(); k++) line += (k ? "," : "") + ops[k];
    line += "],\"o\":{" + StoreJson(st) + "},\"rd\":[";
    for (int r = 0; r < readers; r++) {
      line += r ? ",[" : "[";
      bool first = true;
      for (auto& q : rd[r]) {
        if (q.kind == 'e' && q.a == q.b) continue;
        line += first ? "{" : ",{";
        first = false;
        line += "\"lo\":" + std::to_string(q.lo) + ",\"hi\":" + std::to_string(q.hi) + ",\"c\":" + q.c + ",\"k\":";
        switch (q.kind) {
          case 'f': line += "\"first\",\"r\":" + N(q.r); break;
          case 'l': line += "\"last\",\"r\":" + N(q.r); break;
          case 't': line += "\"term\",\"i\":" + N(q.a) + ",\"r\":" + N(q.r); break;
          case 's': line += "\"snap\",\"r\":" + SnapJson(*q.sn) + ",\"im\":" + B(SnapJson(*q.sn) == q.text); break;
          case 'e': line += "\"ents\",\"f\":" + N(q.a) + ",\"t\":" + N(q.b) + ",\"mx\":" + Lim(q.mx) + ",\"r\":" + EntsJson(q.es); break;
        }
        line += "}";
      }
      line += "]";
    }
    out_->Line(line + "]}");
  }

  // ------------------------------------------------------------ what stops a node
  // A broken invariant must stop the node instead of being carried on.
  void Stop(int steps) {
    for (int k = 0; k < steps; k++) {
      switch (g_.Below(9)) {
        case 0: case 1: case 2: StopLog(); break;
        case 3: StopStart(); break;
        case 4: StopRole(); break;
        case 5: StopStep(); break;
        case 6: StopRestore(); break;
        case 7: StopStorage(); break;
        case 8: if (g_.P(0.2)) StopLogger(); break;
      }
    }
  }
  void StopLog() {
    auto st = std::make_shared<MemoryStorage>(lg_);
    uint64_t t = tb_ + 2, b = xb_ + g_.In(2, 5);
    st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(Snap(b, t)));
    EntryPtrs es;
    int n = g_.In(0, 5);
    for (int i = 1; i <= n; i++) es.push_back(E(b + i, t));
    st->Append(es);
    auto l = craft::RaftLog::NewWithSize(lg_, st, UINT64_MAX);
    // some more that is not in storage yet
    int m = g_.In(0, 3);
    EntryPtrs more;
    for (int i = 1; i <= m; i++) more.push_back(E(b + n + i, t));
    l->Append(more);
    uint64_t last = b + n + m, cm = g_.In(b, last), ap = g_.In(b, cm);
    if (cm > b) l->CommitTo(cm);
    if (ap > b) l->AppliedTo(ap);
    std::string s = ",\"b\":" + N(b) + ",\"last\":" + N(last) + ",\"cm\":" + N(cm) + ",\"ap\":" + N(ap);
    auto after = [&] { return "\"o\":{\"last\":" + N(l->LastIndex()) + ",\"cm\":" + N(l->Committed()) + ",\"ap\":" + N(l->Applied()) + "}"; };
    switch (g_.Below(5)) {
      case 0: {
        uint64_t lo = g_.In(b, last + 2), hi = g_.In(g_.P(0.7) ? lo : b, last + 3);
        Line(Op("stop.slice") + s + ",\"lo\":" + N(lo) + ",\"hi\":" + N(hi), [&] {
          auto [r, c] = l->Slice(lo, hi, UINT64_MAX);
          return "\"c\":" + Code(c) + ",\"r\":" + std::to_string(r.size());
        });
        break;
      }
      case 1: {
        uint64_t from = g_.In(b, last + 1);
        EntryPtrs e;
        int k = g_.In(1, 3);
        for (int i = 0; i < k; i++) e.push_back(E(from + i, t + 1));
        Line(Op("stop.append") + s + ",\"i\":" + N(from) + ",\"k\":" + std::to_string(k), [&] { l->Append(e); return after(); });
        break;
      }
      case 2: {
        uint64_t prev = g_.In(b, last);
        EntryPtrs e;
        int k = g_.In(1, 3), bad = g_.In(1, 4);    // from the bad one on the terms differ
        for (int i = 1; i <= k; i++) e.push_back(E(prev + i, i >= bad ? t + 1 : t));
        Line(Op("stop.mappend") + s + ",\"i\":" + N(prev) + ",\"k\":" + std::to_string(k) + ",\"bad\":" + std::to_string(bad), [&] {
          auto [r, ok] = l->MaybeAppend(prev, t, 0, e);
          return "\"r\":" + N(r) + ",\"ok\":" + B(ok) + "," + after();
        });
        break;
      }
      case 3: {
        uint64_t i = g_.In(b - 1, last + 2);
        Line(Op("stop.commit") + s + ",\"i\":" + N(i), [&] { l->CommitTo(i); return after(); });
        break;
      }
      case 4: {
        uint64_t i = g_.P(0.1) ? 0 : g_.In(b - 1, last + 1);
        Line(Op("stop.applied") + s + ",\"i\":" + N(i), [&] { l->AppliedTo(i); return after(); });
        break;
      }
    }
  }
  Raft::Config StopConfig(std::shared_ptr<MemoryStorage> st) {
    Raft::Config c;
    c.id = ib_ + 1;
    c.election_tick = 10;
    c.heartbeat_tick = 1;
    c.storage = st;
    c.max_inflight_msgs = 8;
    c.max_size_per_msg = UINT64_MAX;
    c.logger = lg_;
    return c;
  }
  // a configuration, perhaps one without voters
  raftpb::ConfState OddCS() {
    auto cs = SomeCS();
    if (g_.P(0.4)) {
      cs.clear_voters();
      cs.clear_learners_next();
      if (cs.voters_outgoing_size() == 0 && cs.learners_size() == 0) {
        if (g_.P(0.5)) cs.add_learners(ib_ + 1);
        else cs.add_voters_outgoing(ib_ + 1);
      }
      if (cs.voters_outgoing_size() == 0) cs.set_auto_leave(false);
    }
    return cs;
  }
  // a node is started on what its storage says
  void StopStart() {
    auto st = std::make_shared<MemoryStorage>(lg_);
    uint64_t t = tb_ + 2, b = xb_ + g_.In(2, 5);
    auto sn = Snap(b, t);
    bool odd = g_.P(0.3);
    raftpb::ConfState cs;
    if (odd) cs = OddCS();
    else for (uint64_t v = 1; v <= 3; v++) cs.add_voters(ib_ + v);
    *sn.mutable_metadata()->mutable_conf_state() = cs;
    st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(sn));
    EntryPtrs es;
    int n = g_.In(0, 4);
    for (int i = 1; i <= n; i++) es.push_back(E(b + i, t));
    st->Append(es);
    raftpb::HardState hs;
    bool none = g_.P(0.15);
    if (!none) {
      hs.set_term(t + g_.In(0, 2));
      hs.set_vote(ib_ + g_.In(1, 3));
      hs.set_commit(g_.In(b - 1, b + n + 1));
      st->SetHardState(hs);
    }
    auto c = StopConfig(st);
    c.applied = g_.P(0.4) ? 0 : g_.In(b - 1, b + n + 1);
    Line(Op("stop.start") + ",\"b\":" + N(b) + ",\"last\":" + N(b + n) + ",\"none\":" + B(none) + ",\"hs\":" + HSJson(hs) + ",\"ap\":" + N(c.applied) +
             ",\"c\":" + CSJson(cs), [&] {
      auto rn = RawNode::New(c);
      auto* r = rn->GetRaft();
      return "\"tm\":" + N(r->Term()) + ",\"cm\":" + N(r->GetRaftLog()->Committed()) + ",\"oap\":" + N(r->GetRaftLog()->Applied());
    });
  }
  std::unique_ptr<RawNode> StopNode(std::shared_ptr<MemoryStorage> st) {
    auto sn = Snap(3, 1);
    auto* cs = sn.mutable_metadata()->mutable_conf_state();
    cs->clear_voters();
    for (uint64_t v = 1; v <= 3; v++) cs->add_voters(ib_ + v);
    st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(sn));
    return RawNode::New(StopConfig(st));
  }
  static void Become(Raft* r, char to, bool make) {
    if (to == 'F') r->BecomeFollower(r->Term(), 0);
    if (to == 'P') r->BecomePreCandidate();
    if (to == 'C' || (to == 'L' && make)) r->BecomeCandidate();
    if (to == 'L') r->BecomeLeader();
  }
  void StopRole() {
    auto st = std::make_shared<MemoryStorage>(lg_);
    auto rn = StopNode(st);
    char from = "FPCL"[g_.Below(4)], to = "PCL"[g_.Below(3)];
    Become(rn->GetRaft(), from, true);
    Line(Op("stop.role") + ",\"from\":\"" + from + "\",\"to\":\"" + to + "\"", [&] {
      Become(rn->GetRaft(), to, false);
      auto s = rn->GetRaft()->State();
      return std::string("\"is\":\"") + (s == kFollower ? "F" : s == kPreCandidate ? "P" : s == kCandidate ? "C" : "L") + "\"";
    });
  }
  // a proposal without entries, or with a configuration change that cannot be read
  void StopStep() {
    auto st = std::make_shared<MemoryStorage>(lg_);
    auto rn = StopNode(st);
    char role = "FPCLLL"[g_.Below(6)];
    Become(rn->GetRaft(), role, true);
    auto m = std::make_shared<raftpb::Message>();
    m->set_type(raftpb::MsgProp);
    m->set_from(ib_ + 1);
    int what = g_.Below(4);
    static const char* names[] = {"none", "plain", "good", "garbage"};
    int type = 0;
    if (what > 0) {
      for (int k = g_.In(0, 2); k > 0; k--) m->add_entries()->set_data("x");
      auto* e = m->add_entries();
      e->set_data("y");
      if (what >= 2) {
        type = g_.In(1, 2);
        e->set_type(type == 1 ? raftpb::EntryConfChange : raftpb::EntryConfChangeV2);
        std::string d;
        if (type == 1) {
          raftpb::ConfChange cc;
          cc.set_type(raftpb::ConfChangeAddNode);
          cc.set_node_id(ib_ + 4);
          cc.SerializeToString(&d);
        } else {
          raftpb::ConfChangeV2 cc;
          auto* c = cc.add_changes();
          c->set_type(raftpb::ConfChangeAddNode);
          c->set_node_id(ib_ + 4);
          cc.SerializeToString(&d);
        }
        if (what == 3) d = g_.P(0.5) ? std::string("\xff\xff\xff\xff") : d.substr(0, d.size() - 1);
        e->set_data(d);
      }
    }
    Line(Op("stop.prop") + ",\"role\":\"" + role + "\",\"what\":\"" + names[what] + "\"", [&] {
      auto s = rn->Step(m);
      return "\"rc\":" + (s.IsOK() ? std::string("\"ok\"") : std::string(s.Str()) == kErrProposalDropped ? std::string("\"dropped\"") : Code(s));
    });
  }
  // a snapshot whose configuration makes no sense
  void StopRestore() {
    auto st = std::make_shared<MemoryStorage>(lg_);
    auto rn = StopNode(st);
    auto m = std::make_shared<raftpb::Message>();
    m->set_type(raftpb::MsgSnap);
    m->set_from(ib_ + 2);
    m->set_to(ib_ + 1);
    m->set_term(tb_ + 3);
    auto sn = Snap(g_.In(6, 9), tb_ + 2);
    auto cs = OddCS();
    *sn.mutable_metadata()->mutable_conf_state() = cs;
    *m->mutable_snapshot() = sn;
    bool me = false;
    for (auto v : cs.voters()) me = me || v == ib_ + 1;
    for (auto v : cs.learners()) me = me || v == ib_ + 1;
    for (auto v : cs.voters_outgoing()) me = me || v == ib_ + 1;
    Line(Op("stop.restore") + ",\"me\":" + B(me) + ",\"i\":" + N(sn.metadata().index()) + ",\"c\":" + CSJson(cs), [&] {
      rn->Step(m);
      return "\"last\":" + N(rn->GetRaft()->GetRaftLog()->LastIndex());
    });
  }
  void StopStorage() {
    MemoryStorage st(lg_);
    uint64_t t = tb_ + 2, b = xb_ + g_.In(2, 5);
    st.ApplySnapshot(std::make_shared<raftpb::Snapshot>(Snap(b, t)));
    EntryPtrs es;
    int n = g_.In(0, 4);
    for (int i = 1; i <= n; i++) es.push_back(E(b + i, t));
    st.Append(es);
    uint64_t i = g_.In(b + 1, b + n + 2);
    std::string s = ",\"last\":" + N(b + n) + ",\"i\":" + N(i);
    auto last = [&] { return "\"c\":\"ok\",\"olast\":" + N(std::get<0>(st.LastIndex())); };
    switch (g_.Below(4)) {
      case 0: Line(Op("stop.stappend") + s, [&] { st.Append({E(i, t)}); return last(); }); break;
      case 1: Line(Op("stop.stsnap") + s, [&] { st.CreateSnapshot(i, nullptr, "d"); return last(); }); break;
      case 2: Line(Op("stop.stcompact") + s, [&] { st.Compact(i); return last(); }); break;
      case 3: Line(Op("stop.stents") + s, [&] { auto c = Code(std::get<1>(st.Entries(b + 1, i, UINT64_MAX))); return "\"c\":" + c + ",\"olast\":" + N(b + n); }); break;
    }
  }
  // the logger that comes with the library: shows what is at least as grave as its level, ends the process on a fatal message
  void StopLogger() {
    int lv = g_.In(0, 4), msg = g_.In(0, 4), num = g_.In(0, 9999);
    bool later = g_.P(0.5);
    Line(Op("stop.logger") + ",\"lv\":" + std::to_string(lv) + ",\"msg\":" + std::to_string(msg), [&] {
      int p[2];
      if (pipe(p) != 0) abort();
      pid_t pid = fork();
      if (pid == 0) {
        dup2(p[1], 1);
        close(p[0]);
        close(p[1]);
        signal(SIGABRT, SIG_DFL);
        ConsoleLogger cl(later ? kDebug : static_cast<LogLevel>(lv));
        if (later) cl.SetLogLevel(static_cast<LogLevel>(lv));
        Logger* logger = &cl;
        switch (msg) {
          case 0: CRAFT_LOG_DEBUG(logger, "v=%d %s", num, "txt"); break;
          case 1: CRAFT_LOG_INFO(logger, "v=%d %s", num, "txt"); break;
          case 2: CRAFT_LOG_WARNING(logger, "v=%d %s", num, "txt"); break;
          case 3: CRAFT_LOG_ERROR(logger, "v=%d %s", num, "txt"); break;
          case 4: CRAFT_LOG_FATAL(logger, "v=%d %s", num, "txt"); break;
        }
        fflush(stdout);
        _exit(0);
      }
      close(p[1]);
      std::string text;
      char buf[512];
      ssize_t k;
      while ((k = read(p[0], buf, sizeof(buf))) > 0) text.append(buf, k);
      close(p[0]);
      int status = 0;
      waitpid(pid, &status, 0);
      bool shown = text.find("v=" + std::to_string(num) + " txt") != std::string::npos;
      return "\"shown\":" + B(shown) + ",\"died\":" + B(!(WIFEXITED(status) && WEXITSTATUS(status) == 0));
    });
  }
