// Execution, memory, exceptions, scheduler, builtins, main.
static inline Thread& TH(State& s) { return s.th[s.cur]; }
static inline Frame& FR(State& s) { return s.th[s.cur].st.back(); }
static inline Val& getv(Frame& f, Opd o) { return o >= 0 ? f.r[(size_t)o] : f.f->consts[(size_t)~o]; }

static void freshTag(State& s) { s.tag = ++tagCounter; }
static u128 evalM(State& s, Expr* e) { return X.eval(e, s.model, s.tag); }

static std::string locOf(const Instruction* I)
{
   if ( !I ) return "?";
   if ( auto& dl = I->getDebugLoc() )
   {
      DebugLoc d = dl;
      auto sc = cast<DIScope>(d.getScope());
      return sc->getFilename().str() + ":" + std::to_string(d.getLine());
   }
   return I->getFunction()->getName().str();
}
static std::string repoLoc(State& s) // innermost location inside the repository sources
{
   auto& st = TH(s).st;
   for ( size_t i = st.size(); i-- > 0; ) if ( st[i].f->repo && st[i].pc < st[i].f->code.size() ) return locOf(st[i].f->code[st[i].pc].I);
   return st.empty() ? "?" : locOf(st.back().f->code[st.back().pc].I);
}
static std::string valStr(u128 v, unsigned w) { i128 x = w == 1 ? (i128)v : sextW(v, w); if ( w > 64 && (x > (i128)INT64_MAX || x < (i128)INT64_MIN) ) { char b[64]; snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(u64)(v >> 64), (unsigned long long)(u64)v); return b; } return std::to_string((long long)x); }

static std::string js(const std::string& t)
{
   std::string r = "\"";
   for ( unsigned char c : t ) { if ( c == '"' || c == '\\' ) { r += '\\'; r += (char)c; } else if ( c < 32 || c > 126 ) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; }
   return r + "\"";
}
static void dumpInputs(State& s, const Model& m, u64 tag, std::vector<std::pair<std::string, std::string>>& out)
{
   for ( auto& i : s.inputs ) out.emplace_back(i.name, i.e ? valStr(X.eval(i.e, m, tag), i.e->w) : std::to_string(i.conc));
}
static void report(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr)
{
   std::string loc = kind == "assert" ? "" : repoLoc(s);
   std::string key = kind + "|" + msg + "|" + loc;
   if ( !violationKeys.insert(key).second ) return;
   Violation v; v.kind = kind; v.msg = msg; v.loc = loc; v.sched = s.sched;
   Model mm = m ? *m : s.model; u64 tag = ++tagCounter;
   dumpInputs(s, mm, tag, v.inputs);
   auto& st = TH(s).st;
   for ( size_t i = st.size(); i-- > 0; ) if ( st[i].pc < st[i].f->code.size() ) v.stack.push_back(st[i].f->pretty + " @ " + locOf(st[i].f->code[st[i].pc].I));
   for ( size_t i = 0; i < s.notes.size(); ++i ) v.notes.push_back(s.notes[i].first + " = " + (s.notes[i].second.e ? valStr(X.eval(s.notes[i].second.e, mm, tag), s.notes[i].second.e->w) : std::to_string((long long)sx(s.notes[i].second.c, 64))));
   violations.push_back(v);
   if ( opt.verbose )
   {
      fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), loc.c_str());
      for ( auto& i : v.inputs ) fprintf(stderr, "   %s = %s\n", i.first.c_str(), i.second.c_str());
      for ( auto& i : v.stack ) fprintf(stderr, "   # %s\n", i.c_str());
   }
}
static void pathDone(State& s);
[[noreturn]] static void fault(State& s, const std::string& kind, const std::string& msg)
{
   if ( kind == "terminate" && s.termOk ) { reached["terminated"]++; pathDone(s); throw PathEnd{}; } // vp_terminate_ok
   report(s, kind, msg);
   throw PathEnd{};
}
[[noreturn]] static void inconclusive(const std::string& why) { incomplete[why]++; throw PathEnd{}; }

static void addCons(State& s, Expr* c)
{
   if ( Exprs::isC(c) ) return;
   if ( c->op == Op::And && c->w == 1 ) { addCons(s, c->k[0]); addCons(s, c->k[1]); return; }
   for ( auto e : s.cons ) if ( e == c ) return;
   s.cons.push_back(c);
}
static int known(State& s, Expr* c)
{
   if ( Exprs::isC(c) ) return c->c ? 1 : 0;
   Expr* n = X.notB(c);
   for ( size_t i = s.cons.size(); i-- > 0; ) { if ( s.cons[i] == c ) return 1; if ( s.cons[i] == n ) return 0; }
   return -1;
}
static State* cloneState(State& s)
{
   ++nForks;
   State* t = new State(s);
   return t;
}
static bool ownPart(State& s)
{
   if ( opt.parts <= 1 ) return true;
   return s.forkHash % opt.parts == opt.part;
}
// returns false if the state must be dropped (belongs to another part)
static bool noteFork(State& s, u32 dir)
{
   if ( opt.parts <= 1 || s.forks >= opt.splitDepth ) return true;
   ++s.forks;
   s.forkHash = (s.forkHash ^ (dir + 0x9E37)) * 1099511628211ull; s.forkHash ^= s.forkHash >> 31;
   if ( s.forks == opt.splitDepth ) return ownPart(s);
   return true;
}
// Decide a symbolic condition for the current state, forking when both outcomes are feasible.
// The clone re-executes the current instruction with the opposite outcome in its constraints.
static bool decide(State& s, Expr* c)
{
   int k = known(s, c);
   if ( k >= 0 ) return k;
   bool v = evalM(s, c) != 0;
   Expr* here = v ? c : X.notB(c); Expr* other = v ? X.notB(c) : c;
   Model m = s.model;
   Res r = SOL->check(s.cons, other, &m);
   if ( r == Res::Unknown ) incomplete["solver timeout on a branch (the unresolved side was not explored)"]++;
   if ( r == Res::Sat )
   {
      State* t = cloneState(s);
      addCons(*t, other); t->model = std::move(m); freshTag(*t);
      if ( noteFork(*t, 1) ) work.push_back(t); else { ++nDropped; delete t; }
      addCons(s, here);
      if ( !noteFork(s, 0) ) { ++nDropped; throw PathEnd{}; }
   }
   return v;
}
// Make an expression concrete in this state; other values are left to clones that re-execute.
static u64 concretize(State& s, Val& v, unsigned w)
{
   if ( !v.e ) return v.c;
   u128 val = evalM(s, v.e);
   Expr* eq = X.bin(Op::Eq, v.e, X.constant(val, w));
   if ( known(s, eq) != 1 )
   {
      Model m = s.model;
      Expr* ne = X.notB(eq);
      Res r = SOL->check(s.cons, ne, &m);
      if ( r == Res::Unknown ) incomplete["solver timeout on a value enumeration"]++;
      if ( r == Res::Sat )
      {
         State* t = cloneState(s);
         addCons(*t, ne); t->model = std::move(m); freshTag(*t);
         if ( noteFork(*t, 1) ) work.push_back(t); else { ++nDropped; delete t; }
         addCons(s, eq);
         if ( !noteFork(s, 0) ) { ++nDropped; throw PathEnd{}; }
      }
   }
   v = cv((u64)val);
   return v.c;
}

// ------------------------------------------------------------------------------------------
// memory access
static u32 vcGet(const VC& v, u32 t) { return t < v.size() ? v[t] : 0; }
static void vcJoin(VC& a, const VC& b) { if ( a.size() < b.size() ) a.resize(b.size(), 0); for ( size_t i = 0; i < b.size(); ++i ) if ( b[i] > a[i] ) a[i] = b[i]; }
static void vcTick(Thread& t, u32 id) { if ( t.vc.size() <= id ) t.vc.resize(id + 1, 0); ++t.vc[id]; }

static void raceCheck(State& s, int slot, u64 off, unsigned n, bool write)
{
   if ( s.th.size() < 2 ) return;
   Obj* o = s.mem.v[(size_t)slot].o;
   if ( o->kind == 3 ) return;
   o = s.mem.writable(slot);
   if ( !o->rs ) { o->rs.reset(new RaceShadow); o->rs->w.resize(o->size); }
   auto& rs = *o->rs; const u32 t = s.cur; auto& vc = TH(s).vc;
   for ( u64 i = off; i < off + n; ++i )
   {
      auto& w = rs.w[i];
      if ( w.wc && w.wt != t && w.wc > vcGet(vc, w.wt) ) { std::string what = write ? "write/write" : "write/read"; report(s, "data-race", "unsynchronised " + what + " access by two threads"); throw PathEnd{}; }
      if ( write )
      {
         for ( auto& r : rs.r ) if ( r.first != t && i < r.second.size() && r.second[i] > vcGet(vc, r.first) ) { report(s, "data-race", "unsynchronised read/write access by two threads"); throw PathEnd{}; }
         w.wt = t; w.wc = vcGet(vc, t);
      }
      else { auto& r = rs.r[t]; if ( r.size() < o->size ) r.resize(o->size, 0); r[i] = vcGet(vc, t); }
   }
}
struct Loc { Obj* o; int slot; u64 off; };
static bool locate(State& s, u64 a, unsigned n, Loc& l)
{
   if ( a >= 0x200000000ull )
   {
      int i = s.mem.find(a);
      if ( i < 0 || !s.mem.v[(size_t)i].o ) return false;
      auto& sl = s.mem.v[(size_t)i];
      if ( a - sl.base + n > sl.size ) return false;
      l = {sl.o, i, a - sl.base};
      return true;
   }
   int i = constSpace->find(a);
   if ( i < 0 || !constSpace->v[(size_t)i].o ) return false;
   auto& sl = constSpace->v[(size_t)i];
   if ( a - sl.base + n > sl.size ) return false;
   l = {sl.o, -1, a - sl.base};
   return true;
}
static std::string badAccess(State& s, u64 a, unsigned n, const char* what)
{
   std::string m;
   int i = a >= 0x200000000ull ? s.mem.find(a) : -1;
   if ( a < 4096 ) m = "null pointer";
   else if ( i >= 0 && !s.mem.v[(size_t)i].o ) m = "use after free";
   else if ( i >= 0 ) m = "out of bounds";
   else m = "wild pointer";
   (void)n;
   return std::string(what) + ": " + m;
}
static Val loadObj(Obj* o, u64 off, unsigned w)
{
   const unsigned n = (w + 7) / 8;
   if ( !o->s.empty() )
   {
      bool any = false;
      for ( unsigned i = 0; i < n; ++i ) if ( o->s[off + i].e ) { any = true; break; }
      if ( any )
      {
         Expr* r = nullptr;
         unsigned i = 0;
         while ( i < n )
         {
            auto& b = o->s[off + i];
            Expr* piece;
            if ( !b.e ) { piece = X.constant(o->d[off + i], 8); ++i; }
            else
            {
               unsigned k = 1;
               while ( i + k < n && o->s[off + i + k].e == b.e && o->s[off + i + k].i == b.i + k ) ++k;
               piece = X.extract(b.e, b.i * 8, k * 8);
               i += k;
            }
            r = r ? X.concat(piece, r) : piece;
         }
         if ( r->w > w ) r = X.trunc(r, w);
         return fromE(r);
      }
   }
   if ( n <= 8 ) { u64 v = 0; memcpy(&v, o->d.data() + off, n); return cv(v & m64(w)); }
   u128 v = 0; memcpy(&v, o->d.data() + off, n); return fromE(X.constant(v, w));
}
static void storeObj(Obj* o, u64 off, Val v, unsigned w)
{
   const unsigned n = (w + 7) / 8;
   if ( !v.e || v.e->op == Op::Const )
   {
      u128 c = v.e ? v.e->c : (u128)(v.c & m64(w));
      memcpy(o->d.data() + off, &c, n);
      if ( !o->s.empty() ) for ( unsigned i = 0; i < n; ++i ) o->s[off + i].e = nullptr;
      return;
   }
   if ( o->s.empty() ) o->s.resize(o->size, SB{nullptr, 0});
   Expr* e = v.e; if ( e->w != n * 8 ) e = X.zext(e, n * 8);
   if ( e->op == Op::Const ) { storeObj(o, off, fromE(e), n * 8); return; }
   // keep known parts concrete
   for ( unsigned i = 0; i < n; ++i ) { o->s[off + i].e = e; o->s[off + i].i = i; }
}
// structural enumeration of candidate values
static bool candidates(Expr* e, std::vector<u64>& out, size_t limit)
{
   auto uniq = [&]() { std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end()); return out.size() <= limit; };
   switch ( e->op )
   {
      case Op::Const: out.push_back((u64)e->c); return true;
      case Op::Ite:
      {
         std::vector<u64> b;
         if ( !candidates(e->k[1], out, limit) || !candidates(e->k[2], b, limit) ) return false;
         out.insert(out.end(), b.begin(), b.end()); return uniq();
      }
      case Op::Add: case Op::Sub: case Op::Mul: case Op::And: case Op::Or: case Op::Xor: case Op::LShr:
      {
         std::vector<u64> a, b;
         if ( !candidates(e->k[0], a, limit) || !candidates(e->k[1], b, limit) || a.size() * b.size() > limit ) break;
         for ( u64 x : a ) for ( u64 y : b ) out.push_back((u64)Exprs::fold(e->op, e->w, x, y));
         return uniq();
      }
      case Op::ZExt: case Op::Extract: case Op::SExt:
      {
         std::vector<u64> a; if ( !candidates(e->k[0], a, limit) ) break;
         for ( u64 x : a ) out.push_back((u64)((e->op == Op::ZExt ? (u128)x : e->op == Op::SExt ? (u128)sextW(x, e->k[0]->w) : ((u128)x >> e->aux)) & maskW(e->w)));
         return uniq();
      }
      default: break;
   }
   out.clear();
   if ( e->w > 64 ) return false;
   if ( e->w == 1 ) { out = {0, 1}; return true; }
   i128 n = e->hi - e->lo;
   if ( n >= 0 && n < (i128)limit ) { for ( i128 v = e->lo; v <= e->hi; ++v ) out.push_back((u64)v & m64(e->w)); return true; }
   return false;
}
// candidate addresses of a symbolic pointer that are feasible and valid for an n-byte access (reports invalid ones)
static bool resolve(State& s, Expr* a, unsigned n, const char* what, std::vector<u64>& out, size_t limit)
{
   std::vector<u64> c;
   if ( !candidates(a, c, limit) ) return false;
   for ( u64 v : c )
   {
      Loc l;
      if ( locate(s, v, n, l) ) { out.push_back(v); continue; }
      Expr* eq = X.bin(Op::Eq, a, X.constant(v, a->w));
      if ( Exprs::isC(eq) && !eq->c ) continue;
      if ( known(s, eq) == 0 ) continue;
      Model m = s.model;
      Res r = SOL->check(s.cons, eq, &m);
      if ( r == Res::Unsat ) continue;   // (implied, hence no new constraint)
      if ( r == Res::Unknown ) inconclusive("solver timeout on an address");
      // fork: the clone takes the bad address and reports when executing concretely
      report(s, "memory", badAccess(s, v, n, what), &m);
      Expr* ne = X.notB(eq);
      if ( evalM(s, ne) == 0 ) { Model m2 = s.model; if ( SOL->check(s.cons, ne, &m2) != Res::Sat ) throw PathEnd{}; s.model = std::move(m2); freshTag(s); }
      addCons(s, ne);
   }
   return !out.empty();
}
static Val loadMem(State& s, Val& av, u64 extra, unsigned w, bool atomic = false)
{
   const unsigned n = (w + 7) / 8;
   if ( av.e )
   {
      Expr* a = extra ? X.bin(Op::Add, av.e, X.constant(extra, 64)) : av.e;
      std::vector<u64> c;
      if ( resolve(s, a, n, "read", c, 300) )
      {
         Expr* r = nullptr;
         for ( u64 v : c )
         {
            Loc l; locate(s, v, n, l);
            if ( opt.race && l.slot >= 0 && !atomic ) raceCheck(s, l.slot, l.off, n, false);
            locate(s, v, n, l);
            Expr* x = toE(loadObj(l.o, l.off, w), w);
            r = r ? X.ite(X.bin(Op::Eq, a, X.constant(v, 64)), x, r) : x;
         }
         return fromE(r);
      }
      concretize(s, av, 64);
   }
   u64 a = av.c + extra; Loc l;
   if ( !locate(s, a, n, l) ) fault(s, "memory", badAccess(s, a, n, "read"));
   if ( opt.race && l.slot >= 0 && !atomic ) { raceCheck(s, l.slot, l.off, n, false); l.o = s.mem.v[(size_t)l.slot].o; }
   return loadObj(l.o, l.off, w);
}
static Obj* writableAt(State& s, u64 a, unsigned n, u64& off, const char* what, bool atomic = false)
{
   Loc l;
   if ( !locate(s, a, n, l) ) fault(s, "memory", badAccess(s, a, n, what));
   if ( l.slot < 0 ) fault(s, "memory", "write to constant data");
   if ( opt.race && !atomic ) raceCheck(s, l.slot, l.off, n, true);
   off = l.off;
   return s.mem.writable(l.slot);
}
static void storeMem(State& s, Val& av, u64 extra, Val v, unsigned w, bool atomic = false)
{
   const unsigned n = (w + 7) / 8;
   if ( av.e )
   {
      Expr* a = extra ? X.bin(Op::Add, av.e, X.constant(extra, 64)) : av.e;
      std::vector<u64> c;
      if ( resolve(s, a, n, "write", c, 24) )
      {
         for ( u64 x : c )
         {
            u64 off; Obj* o = writableAt(s, x, n, off, "write", atomic);
            Val old = loadObj(o, off, w);
            storeObj(o, off, fromE(X.ite(X.bin(Op::Eq, a, X.constant(x, 64)), toE(v, w), toE(old, w))), w);
         }
         return;
      }
      concretize(s, av, 64);
   }
   u64 off; Obj* o = writableAt(s, av.c + extra, n, off, "write", atomic);
   storeObj(o, off, v, w);
}
static void copyMem(State& s, u64 d, u64 src, u64 n)
{
   if ( !n ) return;
   Loc l; if ( !locate(s, src, (unsigned)n, l) ) fault(s, "memory", badAccess(s, src, (unsigned)n, "memcpy read"));
   if ( opt.race && l.slot >= 0 ) { raceCheck(s, l.slot, l.off, (unsigned)n, false); }
   u64 off; Obj* o = writableAt(s, d, (unsigned)n, off, "memcpy write");
   if ( !locate(s, src, (unsigned)n, l) ) fault(s, "memory", "memcpy");
   std::vector<SB> tmp; if ( !l.o->s.empty() ) tmp.assign(l.o->s.begin() + (long)l.off, l.o->s.begin() + (long)(l.off + n));
   memmove(o->d.data() + off, l.o->d.data() + l.off, n);
   bool any = false; for ( auto& t : tmp ) if ( t.e ) any = true;
   if ( any && o->s.empty() ) o->s.resize(o->size, SB{nullptr, 0});
   if ( !o->s.empty() ) for ( u64 i = 0; i < n; ++i ) o->s[off + i] = any ? tmp[i] : SB{nullptr, 0};
}
static u64 allocObj(State& s, u64 size, u8 kind, u64 align = 16)
{
   Obj* o = new Obj; o->size = size; o->kind = kind; o->d.assign(size, 0);
   if ( kind == 1 || kind == 2 ) memset(o->d.data(), 0xA5, size);
   return s.mem.add(o, align);
}
static std::string readStr(State& s, u64 a)
{
   std::string r;
   for ( ;; ++a ) { Loc l; if ( !locate(s, a, 1, l) ) return r; Val v = loadObj(l.o, l.off, 8); if ( v.e ) { v.c = (u64)evalM(s, v.e); } if ( !v.c ) return r; r += (char)v.c; if ( r.size() > 2000 ) return r; }
}

// ------------------------------------------------------------------------------------------
// control
static void takeEdge(Frame& f, u32 ei)
{
   Edge& e = f.f->edges[ei];
   ++f.f->edgeHits[ei];
   if ( !e.copies.empty() )
   {
      if ( e.overlap )
      {
         static std::vector<Val> tmp; tmp.clear();
         for ( auto& c : e.copies ) tmp.push_back(getv(f, c.second));
         for ( size_t i = 0; i < e.copies.size(); ++i ) f.r[(size_t)e.copies[i].first] = tmp[i];
      }
      else for ( auto& c : e.copies ) f.r[(size_t)c.first] = getv(f, c.second);
   }
   f.pc = e.pc;
}
static void pushFrame(State& s, DFunc* df, const std::vector<Val>& args)
{
   ++df->calls;
   auto& st = TH(s).st;
   if ( st.size() > 4000 ) fault(s, "stack-overflow", "call depth exceeds 4000 frames");
   st.emplace_back();
   Frame& f = st.back();
   f.f = df; f.pc = 0; f.r.assign(df->nregs, cv(0));
   for ( size_t i = 0; i < df->argSlots.size() && i < args.size(); ++i ) f.r[(size_t)df->argSlots[i]] = args[i];
}
static void popFrame(State& s)
{
   Frame& f = FR(s);
   for ( size_t i = f.allocas.size(); i-- > 0; ) s.mem.popStack(f.allocas[i]);
   TH(s).st.pop_back();
}
static void finishCall(Frame& f) // advance past the call at pc
{
   DInst& d = f.f->code[f.pc];
   CallInfo* ci = (CallInfo*)d.p;
   if ( ci->invoke ) takeEdge(f, ci->normalEdge); else ++f.pc;
}
static void setRet(Frame& f, DInst& d, Val v) { if ( d.dst >= 0 ) f.r[(size_t)d.dst] = v; }

static void schedule(State& s, bool mustSwitch);
static void threadDone(State& s);
static void pathDone(State& s)
{
   if ( opt.parts > 1 && s.forks < opt.splitDepth && opt.part != 0 ) { throw PathEnd{}; }
   ++nPaths;
   if ( samples.size() < 12 && (nPaths & (nPaths - 1)) == 0 )
   {
      std::vector<std::pair<std::string, std::string>> in; u64 tag = ++tagCounter; dumpInputs(s, s.model, tag, in);
      std::string t = "{\"inputs\": ["; bool g = true;
      for ( auto& i : in ) { t += (g ? "[" : ", [") + js(i.first) + ", " + js(i.second) + "]"; g = false; }
      t += "], \"notes\": ["; g = true;
      for ( auto& n : s.notes ) { t += (g ? "[" : ", [") + js(n.first) + ", " + js(n.second.e ? valStr(X.eval(n.second.e, s.model, tag), n.second.e->w) : std::to_string((long long)sx(n.second.c, 64))) + "]"; g = false; }
      t += "], \"sched\": ["; g = true; for ( int i : s.sched ) { t += (g ? "" : ", ") + std::to_string(i); g = false; }
      t += "], \"path_constraints\": " + std::to_string(s.cons.size()) + ", \"instructions\": " + std::to_string(s.instrs) + "}";
      samples.push_back(t);
   }
   throw PathEnd{};
}
static std::vector<Function*> startQueue;
static void nextStart(State& s)
{
   if ( s.queuePos >= startQueue.size() )
   {
      TH(s).stat = T_DONE;
      pathDone(s);
   }
   Function* f = startQueue[s.queuePos++];
   pushFrame(s, getDF(f), {});
}
static void doReturn(State& s, const Val* vals, u32 n)
{
   popFrame(s);
   if ( TH(s).st.empty() )
   {
      if ( s.cur == 0 ) { nextStart(s); return; }
      threadDone(s); return;
   }
   Frame& f = FR(s);
   DInst& d = f.f->code[f.pc];
   if ( d.op == D_CALL )
   {
      for ( u32 i = 0; i < n && i < d.n; ++i ) f.r[(size_t)d.dst + i] = vals[i];
      finishCall(f);
   }
}

// ------------------------------------------------------------------------------------------
// exceptions
static u64 rd64(State& s, u64 a) { Loc l; if ( !locate(s, a, 8, l) ) return 0; Val v = loadObj(l.o, l.off, 64); return v.e ? 0 : v.c; }
static u64 vtSI, vtVMI, vtClass, vtPtr;
static bool tiMatch(State& s, u64 thrown, u64 want, int depth = 0)
{
   if ( thrown == want ) return true;
   if ( !thrown || depth > 20 ) return false;
   u64 vt = rd64(s, thrown);
   if ( vt == vtSI + 16 ) return tiMatch(s, rd64(s, thrown + 16), want, depth + 1);
   if ( vt == vtVMI + 16 )
   {
      u64 n = rd64(s, thrown + 16) >> 32;
      for ( u64 i = 0; i < n; ++i ) if ( tiMatch(s, rd64(s, thrown + 24 + 16 * i), want, depth + 1) ) return true;
   }
   return false;
}
static std::map<u64, std::string> tiNames;
static int tiId(u64 ti) { if ( !ti ) return 1 << 30; auto it = tiIds.find(ti); if ( it != tiIds.end() ) return it->second; int i = (int)tiById.size(); tiById.push_back(ti); tiIds[ti] = i; return i; }
static void unwind(State& s, u64 exc, bool skipTop)
{
   u64 ti = s.excs[exc].ti;
   // phase 1: is there a handler?
   auto& st = TH(s).st;
   bool first = true, handler = false;
   for ( size_t i = st.size(); i-- > 0 && !handler; )
   {
      if ( first && skipTop ) { first = false; continue; }
      first = false;
      DInst& d = st[i].f->code[st[i].pc];
      if ( d.op != D_CALL || !((CallInfo*)d.p)->invoke ) continue;
      Edge& e = st[i].f->edges[((CallInfo*)d.p)->unwindEdge];
      u32 pc = e.pc;
      while ( st[i].f->code[pc].op == D_NOP ) ++pc;
      LpadInfo* li = (LpadInfo*)st[i].f->code[pc].p;
      for ( auto& c : li->clauses ) if ( (c.isCatch && (c.ti == 0 || tiMatch(s, ti, c.ti))) || (!c.isCatch && c.empty) ) handler = true;
   }
   if ( !handler ) fault(s, "terminate", "uncaught exception of type " + (tiNames.count(ti) ? tiNames[ti] : std::string("?")));
   if ( skipTop ) popFrame(s);
   while ( true )
   {
      if ( TH(s).st.empty() ) fault(s, "terminate", "uncaught exception");
      Frame& f = FR(s);
      DInst& d = f.f->code[f.pc];
      if ( d.op == D_CALL && ((CallInfo*)d.p)->invoke )
      {
         CallInfo* ci = (CallInfo*)d.p;
         u32 pc = f.f->edges[ci->unwindEdge].pc;
         LpadInfo* li = (LpadInfo*)f.f->code[pc].p;
         i64 sel = 0; bool hit = false;
         for ( auto& c : li->clauses )
         {
            if ( c.isCatch && (c.ti == 0 || tiMatch(s, ti, c.ti)) ) { sel = tiId(c.ti); hit = true; break; }
            if ( !c.isCatch && c.empty ) { sel = -1; hit = true; break; }
         }
         if ( hit || li->cleanup )
         {
            f.exc = exc; f.sel = (u64)sel;
            takeEdge(f, ci->unwindEdge);
            return;
         }
      }
      popFrame(s);
   }
}

// ------------------------------------------------------------------------------------------
// scheduler
static bool enabled(State& s, u32 t)
{
   Thread& th = s.th[t];
   switch ( th.stat )
   {
      case T_READY: return true;
      case T_MUTEX: return s.mtx[th.obj].owner < 0;
      case T_COND: return th.timed || s.spurious < opt.spurious;
      case T_JOIN: return s.th[(size_t)th.obj].stat == T_DONE;
      case T_DONE: return false;
   }
   return false;
}
static void wake(State& s, u32 t)
{
   Thread& th = s.th[t];
   if ( th.stat == T_COND ) { if ( th.timed ) th.wokeByTimeout = true; else ++s.spurious; }
   if ( th.stat != T_DONE ) th.stat = T_READY;
   th.granted = true;
}
static void schedule(State& s, bool currentBlocked)
{
   std::vector<u32> E;
   bool onlyTimed = true;
   for ( u32 t = 0; t < s.th.size(); ++t ) if ( enabled(s, t) ) { E.push_back(t); if ( s.th[t].stat != T_COND ) onlyTimed = false; }
   if ( E.empty() )
   {
      bool all = true; for ( auto& t : s.th ) if ( t.stat != T_DONE ) all = false;
      if ( all ) pathDone(s);
      std::string m = "no thread can make progress:";
      for ( u32 t = 0; t < s.th.size(); ++t ) if ( s.th[t].stat != T_DONE ) m += std::string(" t") + std::to_string(t) + (s.th[t].stat == T_MUTEX ? " waits for a mutex" : s.th[t].stat == T_COND ? " waits on a condition variable" : " waits in join");
      fault(s, "deadlock", m);
   }
   (void)onlyTimed;
   const bool curEnabled = !currentBlocked && enabled(s, s.cur);
   u32 pick;
   if ( E.size() == 1 ) pick = E[0];
   else if ( !opt.explore )
   {
      pick = curEnabled ? s.cur : E[0];
      if ( !curEnabled ) for ( u32 t : E ) if ( s.th[t].stat != T_COND ) { pick = t; break; }
   }
   else if ( curEnabled && opt.preempt >= 0 && s.preemptions >= opt.preempt ) pick = s.cur;
   else
   {
      ++nSched;
      // a fresh symbolic choice; every feasible value is explored
      size_t idx = s.sched.size();
      static std::map<size_t, Expr*> schedSyms;
      if ( !schedSyms.count(idx) ) schedSyms[idx] = X.symbol("sched" + std::to_string(idx), 32, 0, 31);
      Expr* sy = schedSyms[idx];
      pick = curEnabled ? s.cur : E[0];
      for ( u32 t : E ) if ( t != pick )
      {
         State* c = cloneState(s);
         c->sched.push_back((int)t);
         c->cons.push_back(X.bin(Op::Eq, sy, X.constant(t, 32)));
         while ( c->model.size() <= sy->aux ) c->model.push_back((u128)X.symbols[c->model.size()].lo & maskW(X.symbols[c->model.size()].w));
         c->model[sy->aux] = t; freshTag(*c);
         if ( curEnabled ) ++c->preemptions;
         wake(*c, t); c->cur = t;
         if ( noteFork(*c, t + 2) ) work.push_back(c); else { ++nDropped; delete c; }
      }
      s.cons.push_back(X.bin(Op::Eq, sy, X.constant(pick, 32)));
      while ( s.model.size() <= sy->aux ) s.model.push_back((u128)X.symbols[s.model.size()].lo & maskW(X.symbols[s.model.size()].w));
      s.model[sy->aux] = pick; freshTag(s);
      s.sched.push_back((int)pick);
      if ( !noteFork(s, pick + 2) ) { ++nDropped; throw PathEnd{}; }
      wake(s, pick); s.cur = pick;
      return;
   }
   wake(s, pick); s.cur = pick;
}
static bool atomicVisible(const Instruction* I)
{
   // only the atomic operations the repository's own code asks for are scheduling points
   static std::unordered_map<const Instruction*, bool> memo;
   auto it = memo.find(I);
   if ( it != memo.end() ) return it->second;
   bool r = false;
   for ( unsigned k = 0; k < I->getNumOperands(); ++k ) if ( I->getOperand(k)->getName().starts_with("_ZGV") ) return memo[I] = false;
   for ( const DILocation* l = I->getDebugLoc().get(); l; l = l->getInlinedAt() )
   {
      const std::string file = l->getFilename().str();
      if ( file.compare(0, 5, "/usr/") == 0 ) continue;
      r = file.compare(0, opt.srcPrefix.size(), opt.srcPrefix) == 0;
      break;
   }
   return memo[I] = r;
}
struct Switched {}; // thrown by builtins after a scheduling decision: re-enter the interpreter loop
// A visible operation: returns when the current thread has been granted the step.
static void visible(State& s)
{
   Thread& t = TH(s);
   if ( t.granted ) { t.granted = false; return; }
   if ( s.th.size() < 2 ) return;
   t.stat = T_READY;
   schedule(s, false);
   throw Switched{};
}
static void threadDone(State& s)
{
   Thread& t = TH(s);
   t.stat = T_DONE;
   vcTick(t, s.cur);
   schedule(s, true);
}

// ------------------------------------------------------------------------------------------
typedef std::function<void(State&, DInst&, CallInfo&)> Handler;
static void def(const char* names, Handler h)
{
   std::string n; int id = (int)handlers.size();
   handlers.push_back(h); handlerNames.push_back(names);
   for ( const char* p = names; ; ++p ) { if ( *p == ' ' || !*p ) { if ( !n.empty() ) handlerIds[n] = id; n.clear(); if ( !*p ) break; } else n += *p; }
}
static Val arg(State& s, CallInfo& ci, unsigned i) { return getv(FR(s), ci.args[i]); }
static u64 argC(State& s, CallInfo& ci, unsigned i)
{
   Opd o = ci.args[i];
   Val& v = getv(FR(s), o);
   if ( v.e ) { return concretize(s, v, ci.widths[i]); }
   return v.c;
}
static Expr* argE(State& s, CallInfo& ci, unsigned i) { return toE(getv(FR(s), ci.args[i]), ci.widths[i]); }
static void ret(State& s, DInst& d, Val v) { Frame& f = FR(s); setRet(f, d, v); finishCall(f); }
static void retVoid(State& s) { finishCall(FR(s)); }
static void ret2(State& s, DInst& d, Val a, Val b) { Frame& f = FR(s); f.r[(size_t)d.dst] = a; f.r[(size_t)d.dst + 1] = b; finishCall(f); }

static Val icmp(u8 pred, unsigned w, Val a, Val b);
static Val binop(State& s, Op o, unsigned w, Val a, Val b);
#include "builtins.h"

static int handlerFor(Function* fn)
{
   std::string n = fn->getName().str();
   auto it = handlerIds.find(n);
   if ( it != handlerIds.end() ) return it->second;
   if ( fn->isIntrinsic() )
   {
      // strip type suffixes: llvm.memcpy.p0.p0.i64 -> llvm.memcpy
      std::string b = n;
      while ( true ) { auto p = b.rfind('.'); if ( p == std::string::npos || p < 5 ) break; b = b.substr(0, p); it = handlerIds.find(b); if ( it != handlerIds.end() ) return it->second; }
   }
   return -1;
}

static Val binop(State& s, Op o, unsigned w, Val a, Val b)
{
   if ( !a.e && !b.e && w <= 64 )
   {
      const u64 m = m64(w); const u64 x = a.c & m, y = b.c & m;
      switch ( o )
      {
         case Op::Add: return cv((x + y) & m);
         case Op::Sub: return cv((x - y) & m);
         case Op::Mul: return cv((x * y) & m);
         case Op::And: return cv(x & y);
         case Op::Or: return cv(x | y);
         case Op::Xor: return cv(x ^ y);
         case Op::Shl: return cv(y >= w ? 0 : (x << y) & m);
         case Op::LShr: return cv(y >= w ? 0 : x >> y);
         case Op::AShr: { i64 v = sx(x, w); return cv((u64)(v >> (y >= w ? w - 1 : y)) & m); }
         case Op::UDiv: if ( !y ) fault(s, "division", "division by zero"); return cv(x / y);
         case Op::URem: if ( !y ) fault(s, "division", "division by zero"); return cv(x % y);
         case Op::SDiv: { i64 p = sx(x, w), q = sx(y, w); if ( !q ) fault(s, "division", "division by zero"); if ( q == -1 ) { if ( w >= 32 && x == (1ull << (w - 1)) ) fault(s, "division", "signed division overflow (SIGFPE)"); return cv((0 - x) & m); } return cv((u64)(p / q) & m); }
         case Op::SRem: { i64 p = sx(x, w), q = sx(y, w); if ( !q ) fault(s, "division", "division by zero"); if ( q == -1 ) { if ( w >= 32 && x == (1ull << (w - 1)) ) fault(s, "division", "signed remainder overflow (SIGFPE)"); return cv(0); } return cv((u64)(p % q) & m); }
         default: break;
      }
   }
   Expr* ea = toE(a, w); Expr* eb = toE(b, w);
   if ( o == Op::UDiv || o == Op::SDiv || o == Op::URem || o == Op::SRem )
   {
      Expr* z = X.bin(Op::Eq, eb, X.constant(0, w));
      if ( decide(s, z) ) fault(s, "division", "division by zero");
      if ( (o == Op::SDiv || o == Op::SRem) && w >= 32 )
      {
         Expr* ov = X.bin(Op::And, X.bin(Op::Eq, ea, X.constant((u128)1 << (w - 1), w)), X.bin(Op::Eq, eb, X.constant(~(u128)0, w)));
         if ( !(Exprs::isC(ov) && !ov->c) && decide(s, ov) ) fault(s, "division", "signed division overflow (SIGFPE)");
      }
   }
   return fromE(X.bin(o, ea, eb));
}
static Val icmp(u8 pred, unsigned w, Val a, Val b)
{
   if ( !a.e && !b.e )
   {
      const u64 m = m64(w); const u64 x = a.c & m, y = b.c & m; const i64 p = sx(x, w), q = sx(y, w);
      switch ( pred )
      {
         case CmpInst::ICMP_EQ: return cv(x == y); case CmpInst::ICMP_NE: return cv(x != y);
         case CmpInst::ICMP_UGT: return cv(x > y); case CmpInst::ICMP_UGE: return cv(x >= y);
         case CmpInst::ICMP_ULT: return cv(x < y); case CmpInst::ICMP_ULE: return cv(x <= y);
         case CmpInst::ICMP_SGT: return cv(p > q); case CmpInst::ICMP_SGE: return cv(p >= q);
         case CmpInst::ICMP_SLT: return cv(p < q); case CmpInst::ICMP_SLE: return cv(p <= q);
      }
   }
   Expr* x = toE(a, w); Expr* y = toE(b, w); Expr* r = nullptr;
   switch ( pred )
   {
      case CmpInst::ICMP_EQ: r = X.bin(Op::Eq, x, y); break; case CmpInst::ICMP_NE: r = X.notB(X.bin(Op::Eq, x, y)); break;
      case CmpInst::ICMP_UGT: r = X.bin(Op::Ult, y, x); break; case CmpInst::ICMP_UGE: r = X.bin(Op::Ule, y, x); break;
      case CmpInst::ICMP_ULT: r = X.bin(Op::Ult, x, y); break; case CmpInst::ICMP_ULE: r = X.bin(Op::Ule, x, y); break;
      case CmpInst::ICMP_SGT: r = X.bin(Op::Slt, y, x); break; case CmpInst::ICMP_SGE: r = X.bin(Op::Sle, y, x); break;
      case CmpInst::ICMP_SLT: r = X.bin(Op::Slt, x, y); break; case CmpInst::ICMP_SLE: r = X.bin(Op::Sle, x, y); break;
   }
   return fromE(r);
}
static double asD(Val v, unsigned w) { if ( v.e ) throw Unsupported{"symbolic floating point"}; if ( w == 32 ) { float f; u32 x = (u32)v.c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static Val fromD(double d, unsigned w) { if ( w == 32 ) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return cv(x); } u64 x; memcpy(&x, &d, 8); return cv(x); }

static void runState(State& s)
{
   u64 budgetCheck = 0;
   while ( true )
   {
      if ( TH(s).st.empty() ) { nextStart(s); continue; }
      Frame* fp = &FR(s);
      DInst* dp = &fp->f->code[fp->pc];
      ++s.instrs; ++nInstr;
      if ( (++budgetCheck & 0x3fff) == 0 && since(T0) > opt.maxTime ) { incomplete["time budget exhausted"]++; throw PathEnd{}; }
      if ( s.instrs > opt.maxInstr )
      {
         if ( opt.hangIsViolation ) fault(s, "hang", "no termination within the instruction bound");
         inconclusive("instruction bound");
      }
      Frame& f = *fp; DInst& d = *dp;
      switch ( d.op )
      {
         case D_BIN: { Val r = binop(s, (Op)d.sub, d.w, getv(f, d.a), getv(f, d.b)); f.r[(size_t)d.dst] = r; ++f.pc; break; }
         case D_ICMP: f.r[(size_t)d.dst] = icmp(d.sub, d.w, getv(f, d.a), getv(f, d.b)); ++f.pc; break;
         case D_CAST:
         {
            Val a = getv(f, d.a); Val r;
            if ( !a.e && d.w2 <= 64 )
            {
               switch ( d.sub ) { case Instruction::SExt: r = cv((u64)sx(a.c, d.w) & m64(d.w2)); break; default: r = cv(a.c & m64(d.w) & m64(d.w2)); }
            }
            else
            {
               Expr* e = toE(a, d.w);
               switch ( d.sub )
               {
                  case Instruction::SExt: r = fromE(X.sext(e, d.w2)); break;
                  case Instruction::ZExt: r = fromE(X.zext(e, d.w2)); break;
                  case Instruction::Trunc: r = fromE(X.trunc(e, d.w2)); break;
                  default: r = fromE(d.w2 > d.w ? X.zext(e, d.w2) : d.w2 < d.w ? X.trunc(e, d.w2) : e);
               }
            }
            f.r[(size_t)d.dst] = r; ++f.pc; break;
         }
         case D_SELECT:
         {
            Val c = getv(f, d.a); Val r;
            if ( !c.e ) r = (c.c & 1) ? getv(f, d.b) : getv(f, d.c);
            else
            {
               int k = known(s, c.e);
               if ( k >= 0 ) r = k ? getv(f, d.b) : getv(f, d.c);
               else r = fromE(X.ite(c.e, toE(getv(f, d.b), d.w), toE(getv(f, d.c), d.w)));
            }
            f.r[(size_t)d.dst] = r; ++f.pc; break;
         }
         case D_LOAD:
         {
            if ( d.sub && opt.explore ) { if ( atomicVisible(d.I) ) visible(s); u64 ad = concretize(s, getv(f, d.a), 64) + d.x; vcJoin(TH(s).vc, s.atomics[ad]); }
            Val r = loadMem(s, getv(f, d.a), d.x, d.w, d.sub); f.r[(size_t)d.dst] = r; ++f.pc; break;
         }
         case D_STORE:
         {
            if ( d.sub && opt.explore ) { if ( atomicVisible(d.I) ) visible(s); u64 ad = concretize(s, getv(f, d.a), 64) + d.x; vcJoin(s.atomics[ad], TH(s).vc); vcTick(TH(s), s.cur); }
            storeMem(s, getv(f, d.a), d.x, getv(f, d.b), d.w, d.sub); ++f.pc; break;
         }
         case D_GEP:
         {
            GepInfo* g = (GepInfo*)d.p; Val a = getv(f, d.a);
            u64 off = (u64)g->off; Expr* e = a.e;
            for ( auto& t : g->t )
            {
               Val i = getv(f, t.o);
               if ( !i.e ) off += (u64)(sx(i.c, t.w) * t.scale);
               else { Expr* x = X.sext(i.e, 64); x = X.bin(Op::Mul, x, X.constant((u128)(i128)t.scale, 64)); e = e ? X.bin(Op::Add, e, x) : x; if ( !a.e ) { off += a.c; a.e = e; a.c = 0; } }
            }
            if ( !e ) f.r[(size_t)d.dst] = cv(a.c + off);
            else f.r[(size_t)d.dst] = fromE(X.bin(Op::Add, e, X.constant(off, 64)));
            ++f.pc; break;
         }
         case D_ALLOCA:
         {
            u64 n = concretize(s, getv(f, d.a), 64);
            u64 a = allocObj(s, n * d.x, 2, d.y); f.allocas.push_back(a); f.r[(size_t)d.dst] = cv(a); ++f.pc; break;
         }
         case D_BR: takeEdge(f, d.x); break;
         case D_CBR:
         {
            Val c = getv(f, d.a);
            bool t = c.e ? decide(s, c.e) : (c.c & 1);
            takeEdge(f, t ? d.x : d.y); break;
         }
         case D_SWITCH:
         {
            SwitchInfo* si = (SwitchInfo*)d.p; Val c = getv(f, d.a); u32 to = si->def;
            if ( !c.e ) { u64 v = c.c & m64(d.w); for ( auto& k : si->cases ) if ( k.first == v ) { to = k.second; break; } }
            else
            {
               // group cases by target
               std::vector<std::pair<u32, Expr*>> groups;
               for ( auto& k : si->cases )
               {
                  Expr* q = X.bin(Op::Eq, c.e, X.constant(k.first, d.w));
                  bool found = false;
                  for ( auto& g : groups ) if ( g.first == k.second ) { g.second = X.bin(Op::Or, g.second, q); found = true; break; }
                  if ( !found ) groups.emplace_back(k.second, q);
               }
               for ( auto& g : groups ) if ( decide(s, g.second) ) { to = g.first; break; }
            }
            takeEdge(f, to); break;
         }
         case D_MOV:
            if ( d.n == 1 ) f.r[(size_t)d.dst] = getv(f, d.a);
            else for ( u32 i = 0; i < d.n; ++i ) { Opd o = d.a >= 0 ? d.a + (Opd)i : d.a - (Opd)i; f.r[(size_t)d.dst + i] = getv(f, o); }
            ++f.pc; break;
         case D_RET:
         {
            static std::vector<Val> rv; rv.clear();
            for ( u32 i = 0; i < d.n; ++i ) { Opd o = d.a >= 0 ? d.a + (Opd)i : d.a - (Opd)i; rv.push_back(getv(f, o)); }
            std::vector<Val> r2 = rv;
            doReturn(s, r2.data(), d.n); break;
         }
         case D_LPAD: f.r[(size_t)d.dst] = cv(f.exc); f.r[(size_t)d.dst + 1] = cv(f.sel & 0xffffffff); ++f.pc; break;
         case D_RESUME: { u64 e = getv(f, d.a).c; unwind(s, e, true); break; }
         case D_UNREACH: fault(s, "unreachable", "undefined behaviour: control reaches a point the compiler assumes unreachable");
         case D_NOP: ++f.pc; break;
         case D_FBIN:
         {
            double a = asD(getv(f, d.a), d.w), b = asD(getv(f, d.b), d.w), r = 0;
            switch ( (Op)d.sub ) { case Op::Add: r = a + b; break; case Op::Sub: r = a - b; break; case Op::Mul: r = a * b; break; case Op::SDiv: r = a / b; break; default: r = fmod(a, b); }
            f.r[(size_t)d.dst] = fromD(r, d.w); ++f.pc; break;
         }
         case D_FCMP:
         {
            double a = asD(getv(f, d.a), d.w), b = asD(getv(f, d.b), d.w); bool un = a != a || b != b, r = false;
            switch ( d.sub )
            {
               case CmpInst::FCMP_OEQ: r = !un && a == b; break; case CmpInst::FCMP_UEQ: r = un || a == b; break;
               case CmpInst::FCMP_ONE: r = !un && a != b; break; case CmpInst::FCMP_UNE: r = un || a != b; break;
               case CmpInst::FCMP_OLT: r = !un && a < b; break; case CmpInst::FCMP_ULT: r = un || a < b; break;
               case CmpInst::FCMP_OLE: r = !un && a <= b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break;
               case CmpInst::FCMP_OGT: r = !un && a > b; break; case CmpInst::FCMP_UGT: r = un || a > b; break;
               case CmpInst::FCMP_OGE: r = !un && a >= b; break; case CmpInst::FCMP_UGE: r = un || a >= b; break;
               case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false;
            }
            f.r[(size_t)d.dst] = cv(r); ++f.pc; break;
         }
         case D_FCAST:
         {
            Val a = getv(f, d.a); Val r;
            switch ( d.sub )
            {
               case Instruction::FPExt: case Instruction::FPTrunc: r = fromD(asD(a, d.w), d.w2); break;
               case Instruction::SIToFP: if ( a.e ) throw Unsupported{"symbolic to floating point"}; r = fromD((double)sx(a.c, d.w), d.w2); break;
               case Instruction::UIToFP: if ( a.e ) throw Unsupported{"symbolic to floating point"}; r = fromD((double)a.c, d.w2); break;
               case Instruction::FPToSI: r = cv((u64)(i64)asD(a, d.w) & m64(d.w2)); break;
               case Instruction::FPToUI: r = cv((u64)asD(a, d.w) & m64(d.w2)); break;
               default: r = a;
            }
            f.r[(size_t)d.dst] = r; ++f.pc; break;
         }
         case D_FNEG: f.r[(size_t)d.dst] = fromD(-asD(getv(f, d.a), d.w), d.w); ++f.pc; break;
         case D_CMPXCHG:
         {
            if ( opt.explore && atomicVisible(d.I) ) visible(s);
            u64 ad = concretize(s, getv(f, d.a), 64);
            if ( opt.explore ) { vcJoin(TH(s).vc, s.atomics[ad]); vcJoin(s.atomics[ad], TH(s).vc); vcTick(TH(s), s.cur); }
            Val av = cv(ad); Val old = loadMem(s, av, 0, d.w, true);
            Val eq = icmp(CmpInst::ICMP_EQ, d.w, old, getv(f, d.b));
            Val nv = eq.e ? fromE(X.ite(eq.e, toE(getv(f, d.c), d.w), toE(old, d.w))) : eq.c ? getv(f, d.c) : old;
            storeMem(s, av, 0, nv, d.w, true);
            f.r[(size_t)d.dst] = old; f.r[(size_t)d.dst + 1] = eq; ++f.pc; break;
         }
         case D_RMW:
         {
            if ( opt.explore && atomicVisible(d.I) ) visible(s);
            u64 ad = concretize(s, getv(f, d.a), 64);
            if ( opt.explore ) { vcJoin(TH(s).vc, s.atomics[ad]); vcJoin(s.atomics[ad], TH(s).vc); vcTick(TH(s), s.cur); }
            Val av = cv(ad); Val old = loadMem(s, av, 0, d.w, true); Val b = getv(f, d.b); Val nv;
            switch ( d.sub )
            {
               case AtomicRMWInst::Xchg: nv = b; break;
               case AtomicRMWInst::Add: nv = binop(s, Op::Add, d.w, old, b); break;
               case AtomicRMWInst::Sub: nv = binop(s, Op::Sub, d.w, old, b); break;
               case AtomicRMWInst::And: nv = binop(s, Op::And, d.w, old, b); break;
               case AtomicRMWInst::Or: nv = binop(s, Op::Or, d.w, old, b); break;
               case AtomicRMWInst::Xor: nv = binop(s, Op::Xor, d.w, old, b); break;
               default: throw Unsupported{"atomicrmw"};
            }
            storeMem(s, av, 0, nv, d.w, true);
            f.r[(size_t)d.dst] = old; ++f.pc; break;
         }
         case D_UNSUP: throw Unsupported{*(std::string*)d.p};
         case D_CALL:
         {
            CallInfo& ci = *(CallInfo*)d.p;
            Function* fn = ci.fn;
            if ( !fn )
            {
               u64 a = concretize(s, getv(f, ci.callee), 64);
               auto it = funcByAddr.find(a);
               if ( it == funcByAddr.end() ) fault(s, "memory", "call through an invalid function pointer");
               fn = it->second;
               int h = handlerFor(fn);
               if ( h >= 0 ) { handlers[(size_t)h](s, d, ci); break; }
               if ( fn->isDeclaration() ) throw Unsupported{"external function " + fn->getName().str()};
               std::vector<Val> av; for ( auto o : ci.args ) av.push_back(getv(f, o));
               DFunc* df = getDF(fn);
               pushFrame(s, df, av); break;
            }
            if ( ci.handler == -2 )
            {
               ci.handler = handlerFor(fn);
               if ( ci.handler < 0 && !fn->isDeclaration() ) ci.df = getDF(fn);
            }
            if ( ci.handler >= 0 ) { handlers[(size_t)ci.handler](s, d, ci); break; }
            if ( !ci.df ) throw Unsupported{"external function " + fn->getName().str()};
            std::vector<Val> av; av.reserve(ci.args.size());
            for ( auto o : ci.args ) av.push_back(getv(f, o));
            pushFrame(s, ci.df, av); break;
         }
      }
   }
}

static void writeResult(double wall)
{
   std::string o = "{\n";
   o += " \"paths\": " + std::to_string(nPaths) + ", \"instructions\": " + std::to_string(nInstr) + ", \"forks\": " + std::to_string(nForks) + ", \"asserts\": " + std::to_string(nAsserts) + ", \"assert_queries\": " + std::to_string(nAssertQueries) + ", \"schedule_choices\": " + std::to_string(nSched) + ", \"assume_ends\": " + std::to_string(nAssumeEnds) + ",\n";
   auto& st = SOL->st;
   o += " \"queries\": " + std::to_string(st.queries) + ", \"cache_hits\": " + std::to_string(st.cacheHits) + ", \"sat\": " + std::to_string(st.sat) + ", \"unsat\": " + std::to_string(st.unsat) + ", \"unknown\": " + std::to_string(st.unknown) + ", \"fallback\": " + std::to_string(st.fallback) + ", \"table_decisions\": " + std::to_string(st.table) + ",\n";
   char b[200]; snprintf(b, 200, " \"solver_s\": %.3f, \"max_query_s\": %.3f, \"wall_s\": %.3f, \"symbols\": %zu, \"nodes\": %llu,\n", st.seconds, st.maxq, wall, X.symbols.size(), (unsigned long long)X.nodeCount);
   o += b;
   o += " \"incomplete\": {"; bool first = true; for ( auto& i : incomplete ) { o += (first ? "" : ", ") + js(i.first) + ": " + std::to_string(i.second); first = false; } o += "},\n";
   o += " \"reached\": {"; first = true; for ( auto& i : reached ) { o += (first ? "" : ", ") + js(i.first) + ": " + std::to_string(i.second); first = false; } o += "},\n";
   o += " \"samples\": ["; first = true; for ( auto& i : samples ) { o += (first ? "" : ",\n  ") + i; first = false; } o += "],\n";
   o += " \"functions\": ["; first = true;
   for ( auto& p : dfuncs ) if ( p.second->repo && p.second->calls ) { o += (first ? "" : ",\n  ") + js(p.second->pretty); first = false; }
   o += "],\n \"violations\": ["; first = true;
   for ( auto& v : violations )
   {
      o += std::string(first ? "" : ",") + "\n  {\"kind\": " + js(v.kind) + ", \"msg\": " + js(v.msg) + ", \"loc\": " + js(v.loc) + ", \"inputs\": [";
      bool g = true; for ( auto& i : v.inputs ) { o += (g ? "" : ", ") + std::string("[") + js(i.first) + ", " + js(i.second) + "]"; g = false; }
      o += "], \"sched\": ["; g = true; for ( int i : v.sched ) { o += (g ? "" : ", ") + std::to_string(i); g = false; }
      o += "], \"notes\": ["; g = true; for ( auto& i : v.notes ) { o += (g ? "" : ", ") + js(i); g = false; }
      o += "], \"stack\": ["; g = true; for ( auto& i : v.stack ) { o += (g ? "" : ", ") + js(i); g = false; }
      o += "]}"; first = false;
   }
   o += "]\n}\n";
   if ( opt.out.empty() ) fputs(o.c_str(), stdout);
   else { std::ofstream fo(opt.out); fo << o; }
}
static long long rssMB() { long long a, b = 0; FILE* f = fopen("/proc/self/statm", "r"); if ( !f ) return 0; if ( fscanf(f, "%lld %lld", &a, &b) != 2 ) b = 0; fclose(f); return b * 4096 / 1048576; }

static void initGlobals(State& s)
{
   constSpace = new Space; constSpace->next = 0x100000000ull;
   std::vector<std::pair<GlobalVariable*, u64>> inits;
   auto setup = [&](GlobalVariable& g, bool constant) {
      u64 size = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
      std::string n = g.getName().str();
      if ( !g.hasInitializer() && size < 64 ) size = 64;
      Obj* o = new Obj; o->size = size; o->kind = 0; o->d.assign(size, 0); o->ro = constant;
      u64 al = g.getAlign() ? g.getAlign()->value() : 16;
      u64 a = constant ? constSpace->add(o, al) : s.mem.add(o, al);
      gaddr[&g] = a;
      if ( n.compare(0, 4, "_ZTI") == 0 ) tiNames[a] = demangle("_Z" + n.substr(4)) == "_Z" + n.substr(4) ? n.substr(4) : demangle("_Z" + n.substr(4));
      if ( n.find("__si_class_type_infoE") != std::string::npos ) vtSI = a;
      if ( n.find("__vmi_class_type_infoE") != std::string::npos ) vtVMI = a;
   };
   for ( auto& g : M->globals() ) if ( !g.getName().starts_with("llvm.") && !g.isThreadLocal() ) setup(g, g.isConstant() || !g.hasInitializer());
   auto fill = [&](Obj* o, const Constant* c) {
      std::vector<Flat> f; flatten(c->getType(), 0, f);
      std::vector<Val> v; constVals(c, v);
      for ( size_t i = 0; i < f.size() && i < v.size(); ++i ) storeObj(o, f[i].off, v[i], f[i].w);
   };
   for ( auto& g : M->globals() ) if ( !g.getName().starts_with("llvm.") && !g.isThreadLocal() && g.hasInitializer() )
   {
      if ( isa<ConstantAggregateZero>(g.getInitializer()) ) continue;
      u64 a = gaddr[&g];
      Obj* o;
      if ( a >= 0x200000000ull ) o = s.mem.v[(size_t)s.mem.find(a)].o; else o = constSpace->v[(size_t)constSpace->find(a)].o;
      try { fill(o, g.getInitializer()); } catch ( Unsupported& u ) { fprintf(stderr, "warning: initializer of %s: %s\n", g.getName().str().c_str(), u.what.c_str()); }
   }
   if ( auto gc = M->getGlobalVariable("llvm.global_ctors") )
   {
      std::vector<std::pair<u64, Function*>> cs;
      if ( auto ca = dyn_cast<ConstantArray>(gc->getInitializer()) )
         for ( auto& op : ca->operands() ) { auto cst = cast<ConstantStruct>(op); cs.emplace_back(cast<ConstantInt>(cst->getOperand(0))->getZExtValue(), cast<Function>(cst->getOperand(1)->stripPointerCasts())); }
      std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for ( auto& c : cs ) startQueue.push_back(c.second);
   }
}
int realMain(int argc, char** argv)
{
   for ( int i = 1; i < argc; ++i )
   {
      std::string a = argv[i];
      auto val = [&](const char* k) -> const char* { size_t n = strlen(k); return a.compare(0, n, k) == 0 ? a.c_str() + n : nullptr; };
      if ( auto v = val("--entry=") ) opt.entry = v;
      else if ( auto v = val("--out=") ) opt.out = v;
      else if ( auto v = val("--src=") ) opt.srcPrefix = v;
      else if ( auto v = val("--time=") ) opt.maxTime = atof(v);
      else if ( auto v = val("--paths=") ) opt.maxPaths = strtoull(v, 0, 10);
      else if ( auto v = val("--instr=") ) opt.maxInstr = strtoull(v, 0, 10);
      else if ( auto v = val("--viol=") ) opt.maxViolations = strtoull(v, 0, 10);
      else if ( auto v = val("--part=") ) { opt.part = (unsigned)atoi(v); opt.parts = (unsigned)atoi(strchr(v, '/') + 1); if ( !opt.splitDepth ) opt.splitDepth = 8; }
      else if ( auto v = val("--split=") ) opt.splitDepth = (unsigned)atoi(v);
      else if ( auto v = val("--solver-ms=") ) opt.solverMs = (unsigned)atoi(v);
      else if ( auto v = val("--hard-ms=") ) opt.hardMs = (unsigned)atoi(v);
      else if ( auto v = val("--preempt=") ) opt.preempt = atoi(v);
      else if ( auto v = val("--rss=") ) opt.maxRss = atoll(v);
      else if ( auto v = val("--param=") ) { std::string p = v; auto q = p.find('='); opt.params[p.substr(0, q)] = atoll(p.substr(q + 1).c_str()); }
      else if ( auto v = val("--table=") ) opt.table = strtoull(v, 0, 10);
      else if ( a == "--race" ) opt.race = true;
      else if ( auto v = val("--spurious=") ) opt.spurious = atoi(v);
      else if ( a == "--explore" ) opt.explore = true;
      else if ( a == "-v" ) opt.verbose = true;
      else if ( a == "--no-hang" ) opt.hangIsViolation = false;
      else opt.files.push_back(a);
   }
   T0 = Clock::now();
   M = std::make_unique<Module>("linked", Ctx);
   Linker L(*M);
   bool firstMod = true;
   for ( auto& f : opt.files )
   {
      SMDiagnostic err;
      auto m = parseIRFile(f, err, Ctx);
      if ( !m ) { err.print("vpse", errs()); return 3; }
      if ( firstMod ) { M->setDataLayout(m->getDataLayout()); M->setTargetTriple(m->getTargetTriple()); firstMod = false; }
      if ( L.linkInModule(std::move(m)) ) { fprintf(stderr, "link failed: %s\n", f.c_str()); return 3; }
   }
   DL = &M->getDataLayout();
   SOL = new Solver(X); SOL->timeoutMs = opt.solverMs; SOL->hardTimeoutMs = opt.hardMs; SOL->T.limit = opt.table; SOL->useTables = opt.table > 0;
   defineBuiltins();
   for ( auto& f : *M ) fnAddr(&f);
   State* init = new State;
   init->th.emplace_back(); init->th[0].vc = {1};
   initGlobals(*init);
   Function* entry = M->getFunction(opt.entry);
   if ( !entry || entry->isDeclaration() ) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
   startQueue.push_back(entry);
   freshTag(*init);
   work.push_back(init);
   while ( !work.empty() )
   {
      if ( since(T0) > opt.maxTime ) { incomplete["time budget exhausted"] += work.size(); break; }
      if ( nPaths >= opt.maxPaths ) { incomplete["path budget exhausted"] += work.size(); break; }
      if ( violations.size() >= opt.maxViolations ) { incomplete["stopped after the violation limit"] += work.size(); break; }
      static u64 tick = 0;
      if ( (++tick & 63) == 0 && rssMB() > opt.maxRss ) { incomplete["memory budget exhausted"] += work.size(); break; }
      S = work.back(); work.pop_back();
      bool again = true;
      while ( again )
      {
         again = false;
         try { runState(*S); }
         catch ( PathEnd& ) {}
         catch ( Switched& ) { again = true; }
         catch ( Unsupported& u )
         {
            std::string w = "unsupported: " + u.what; incomplete[w]++;
            if ( opt.verbose ) { fprintf(stderr, "%s\n", w.c_str()); auto& st = TH(*S).st; for ( size_t i = st.size(); i-- > 0; ) fprintf(stderr, "   # %s @ %s\n", st[i].f->pretty.c_str(), st[i].pc < st[i].f->code.size() ? locOf(st[i].f->code[st[i].pc].I).c_str() : "?"); }
         }
      }
      delete S; S = nullptr;
   }
   writeResult(since(T0));
   fflush(stdout);
   _exit(0);
}
int main(int argc, char** argv)
{
   // deep recursion in expression evaluation: run on a large stack
   struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
   if ( rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (4ull << 30) && !getenv("VPSE_STACK") )
   {
      rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (4ull << 30) : std::min<rlim_t>(rl.rlim_max, 4ull << 30);
      setrlimit(RLIMIT_STACK, &rl); setenv("VPSE_STACK", "1", 1);
      execv("/proc/self/exe", argv);
   }
   return realMain(argc, argv);
}
