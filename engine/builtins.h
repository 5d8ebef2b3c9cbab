// Models of the C/C++ runtime, harness intrinsics and LLVM intrinsics.
static void doFree(State& s, u64 a, const char* what)
{
   if ( !a ) return;
   int i = s.mem.find(a);
   if ( i < 0 || s.mem.v[(size_t)i].base != a ) fault(s, "memory", std::string(what) + " of an invalid pointer");
   if ( !s.mem.v[(size_t)i].o ) fault(s, "memory", std::string(what) + ": double free");
   if ( s.mem.v[(size_t)i].o->kind != 1 ) fault(s, "memory", std::string(what) + " of a non-heap pointer");
   if ( opt.race && s.mem.v[(size_t)i].o->size ) raceCheck(s, i, 0, (unsigned)s.mem.v[(size_t)i].o->size, true);
   s.mem.release(i);
}
static u64 heapAlloc(State& s, u64 n) { if ( n > (1ull << 28) ) inconclusive("allocation larger than 256 MB"); return allocObj(s, n ? n : 1, 1); }
static Expr* memcmpExpr(State& s, u64 a, u64 b, u64 n, bool order)
{
   Expr* r = X.constant(0, 32);
   for ( u64 i = n; i-- > 0; )
   {
      Val pa = cv(a + i), pb = cv(b + i);
      Val x = loadMem(s, pa, 0, 8), y = loadMem(s, pb, 0, 8);
      Expr* ex = toE(x, 8); Expr* ey = toE(y, 8);
      Expr* eq = X.bin(Op::Eq, ex, ey);
      Expr* ne = order ? X.ite(X.bin(Op::Ult, ex, ey), X.constant(~(u128)0, 32), X.constant(1, 32)) : X.constant(1, 32);
      r = X.ite(eq, r, ne);
   }
   return r;
}
static u32 newThread(State& s, u64 fn, u64 argp)
{
   Function* F = funcByAddr.count(fn) ? funcByAddr[fn] : nullptr;
   if ( !F ) fault(s, "memory", "thread start function invalid");
   u32 id = (u32)s.th.size();
   if ( id > 16 ) inconclusive("more than 16 threads");
   s.th.emplace_back();
   Thread& t = s.th.back();
   Thread& p = s.th[s.cur];
   t.vc = p.vc; vcTick(t, id); vcTick(p, s.cur);
   u32 save = s.cur; s.cur = id; pushFrame(s, getDF(F), {cv(argp)}); s.cur = save;
   return id;
}
static void lockRelease(State& s, u64 m)
{
   Mutex& x = s.mtx[m];
   x.owner = -1; vcJoin(x.vc, TH(s).vc); vcTick(TH(s), s.cur);
}
static int choose(State& s, u32 n) // nondeterministic choice, only in explore mode; -1 => re-execute later
{
   if ( n <= 1 || !opt.explore ) return 0;
   Thread& t = TH(s);
   if ( t.done >= 1000 ) { int r = (int)(t.done - 1000); t.done = 0; return r; }
   ++nSched;
   size_t idx = s.sched.size();
   static std::map<size_t, Expr*> syms;
   if ( !syms.count(idx) ) syms[idx] = X.symbol("choice" + std::to_string(idx), 32, 0, 31);
   Expr* sy = syms[idx];
   auto apply = [&](State& c, u32 v) {
      c.sched.push_back((int)v); c.cons.push_back(X.bin(Op::Eq, sy, X.constant(v, 32)));
      while ( c.model.size() <= sy->aux ) c.model.push_back((u128)X.symbols[c.model.size()].lo & maskW(X.symbols[c.model.size()].w));
      c.model[sy->aux] = v; freshTag(c);
   };
   for ( u32 v = 1; v < n; ++v )
   {
      State* c = cloneState(s); apply(*c, v); c->th[c->cur].done = 1000 + v; c->th[c->cur].granted = true;
      if ( noteFork(*c, v + 50) ) work.push_back(c); else { ++nDropped; delete c; }
   }
   apply(s, 0);
   if ( !noteFork(s, 49) ) { ++nDropped; throw PathEnd{}; }
   return 0;
}
static Val minmax(Val a, Val b, unsigned w, bool sgn, bool mx)
{
   Val c = icmp(sgn ? (mx ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT) : (mx ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT), w, a, b);
   if ( !c.e ) return c.c ? a : b;
   return fromE(X.ite(c.e, toE(a, w), toE(b, w)));
}
static void overflowOp(State& s, DInst& d, CallInfo& ci, Op op, bool sgn)
{
   unsigned w = ci.widths[0];
   Expr* a = argE(s, ci, 0); Expr* b = argE(s, ci, 1);
   unsigned W = op == Op::Mul ? 2 * w : w + 1;
   if ( W > 128 ) throw Unsupported{"wide overflow arithmetic"};
   Expr* r = X.bin(op, a, b);
   Expr* ov;
   if ( sgn )
   {
      Expr* wide = X.bin(op, X.sext(a, W), X.sext(b, W));
      i128 h = (((i128)1) << (w - 1)) - 1, l = -h - 1;
      ov = X.bin(Op::Or, X.bin(Op::Slt, wide, X.constant((u128)l, W)), X.bin(Op::Slt, X.constant((u128)h, W), wide));
   }
   else
   {
      if ( op == Op::Sub ) ov = X.bin(Op::Ult, a, b);
      else if ( op == Op::Add ) ov = X.bin(Op::Ult, r, a);
      else { Expr* wide = X.bin(op, X.zext(a, W), X.zext(b, W)); ov = X.notB(X.bin(Op::Eq, X.extract(wide, w, W - w), X.constant(0, W - w))); }
   }
   ret2(s, d, fromE(r), fromE(ov));
}
static Expr* popcnt(Expr* a)
{
   unsigned w = a->w; Expr* r = X.constant(0, w);
   if ( a->lo >= 0 ) { unsigned n = 0; i128 h = a->hi; while ( h > 0 ) { ++n; h >>= 1; } for ( unsigned i = 0; i < n; ++i ) r = X.bin(Op::Add, r, X.zext(X.extract(a, i, 1), w)); return r; }
   for ( unsigned i = 0; i < w; ++i ) r = X.bin(Op::Add, r, X.zext(X.extract(a, i, 1), w));
   return r;
}
static void throwNew(State& s, const char* fnName) { Function* F = M->getFunction(fnName); if ( !F || F->isDeclaration() ) throw Unsupported{fnName}; pushFrame(s, getDF(F), {}); }

static void defineBuiltins()
{
   // ---- harness intrinsics ----
   def("vp_sym", [](State& s, DInst& d, CallInfo& ci) {
      std::string name = readStr(s, argC(s, ci, 0)); i64 lo = (i64)argC(s, ci, 1), hi = (i64)argC(s, ci, 2);
      if ( lo > hi ) inconclusive("vp_sym with an empty range");
      static std::map<std::tuple<u32, std::string, i64, i64>, Expr*> syms;
      auto k = std::make_tuple(s.symCount, name, lo, hi);
      Expr*& e = syms[k];
      if ( !e ) e = X.symbol(name, 64, lo, hi);
      ++s.symCount;
      s.inputs.push_back({name, e, 0});
      ret(s, d, fromE(e));
   });
   def("vp_param", [](State& s, DInst& d, CallInfo& ci) {
      std::string name = readStr(s, argC(s, ci, 0)); long long v = (long long)argC(s, ci, 1);
      auto it = opt.params.find(name); if ( it != opt.params.end() ) v = it->second;
      ret(s, d, cv((u64)v));
   });
   def("vp_assume", [](State& s, DInst& d, CallInfo& ci) {
      Val v = arg(s, ci, 0); unsigned w = ci.widths[0];
      if ( !v.e ) { if ( !v.c ) { ++nAssumeEnds; throw PathEnd{}; } retVoid(s); return; }
      Expr* c = X.notB(X.bin(Op::Eq, v.e, X.constant(0, w)));
      int k = known(s, c);
      if ( k == 0 || (Exprs::isC(c) && !c->c) ) { ++nAssumeEnds; throw PathEnd{}; }
      if ( k < 0 && evalM(s, c) == 0 )
      {
         Model m = s.model; Res r = SOL->check(s.cons, c, &m);
         if ( r == Res::Unsat ) { ++nAssumeEnds; throw PathEnd{}; }
         if ( r == Res::Unknown ) inconclusive("solver timeout in an assumption");
         s.model = std::move(m); freshTag(s);
      }
      addCons(s, c);
      retVoid(s);
   });
   def("vp_assert", [](State& s, DInst& d, CallInfo& ci) {
      Val v = arg(s, ci, 0); unsigned w = ci.widths[0]; ++nAsserts;
      std::string msg = readStr(s, argC(s, ci, 1));
      reached["assert: " + msg]++;
      if ( !v.e ) { if ( !v.c ) fault(s, "assert", msg); retVoid(s); return; }
      Expr* c = X.notB(X.bin(Op::Eq, v.e, X.constant(0, w)));
      if ( Exprs::isC(c) ) { if ( !c->c ) fault(s, "assert", msg); retVoid(s); return; }
      int k = known(s, c);
      if ( k == 1 ) { retVoid(s); return; }
      if ( k == 0 ) fault(s, "assert", msg);
      ++nAssertQueries;
      Model m = s.model;
      if ( evalM(s, c) == 0 )
      {
         report(s, "assert", msg);
         Res r = SOL->check(s.cons, c, &m);
         if ( r != Res::Sat ) throw PathEnd{};
         s.model = std::move(m); freshTag(s); addCons(s, c);
      }
      else
      {
         Res r = SOL->check(s.cons, X.notB(c), &m, true);
         if ( r == Res::Sat ) { report(s, "assert", msg, &m); addCons(s, c); }
         else if ( r == Res::Unknown ) { incomplete["solver timeout on an assertion: " + msg]++; addCons(s, c); }
      }
      retVoid(s);
   });
   def("vp_reach", [](State& s, DInst& d, CallInfo& ci) { reached[readStr(s, argC(s, ci, 0))]++; retVoid(s); });
   def("vp_note", [](State& s, DInst& d, CallInfo& ci) { s.notes.emplace_back(readStr(s, argC(s, ci, 0)), arg(s, ci, 1)); retVoid(s); });
   def("vp_concrete", [](State& s, DInst& d, CallInfo& ci) { u64 v = argC(s, ci, 0); ret(s, d, cv(v)); });
   def("vp_is_symbolic_run", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, cv(1)); });
   def("vp_terminate_ok", [](State& s, DInst& d, CallInfo& ci) { s.termOk = argC(s, ci, 0) != 0; retVoid(s); });
   def("vp_stop", [](State& s, DInst& d, CallInfo& ci) { pathDone(s); });
   def("vp_skip", [](State& s, DInst& d, CallInfo& ci) { ++nAssumeEnds; throw PathEnd{}; });
   def("vp_debug", [](State& s, DInst& d, CallInfo& ci) { Val v = arg(s, ci, 1); if ( opt.verbose ) fprintf(stderr, "debug %s = %s\n", readStr(s, argC(s, ci, 0)).c_str(), v.e ? X.str(v.e).c_str() : std::to_string((long long)v.c).c_str()); retVoid(s); });
   def("vp_print", [](State& s, DInst& d, CallInfo& ci) { if ( opt.verbose ) fprintf(stderr, "%s", readStr(s, argC(s, ci, 0)).c_str()); retVoid(s); });
   def("vp_unsupported", [](State& s, DInst& d, CallInfo& ci) { throw Unsupported{readStr(s, argC(s, ci, 0))}; });
   def("vp_fail", [](State& s, DInst& d, CallInfo& ci) { fault(s, "assert", readStr(s, argC(s, ci, 0))); });
   // branch-free boolean helpers (avoid path forks in oracles)
   def("vp_and", [](State& s, DInst& d, CallInfo& ci) { Val a = arg(s, ci, 0), b = arg(s, ci, 1); if ( !a.e && !b.e ) { ret(s, d, cv(a.c && b.c)); return; }
      Expr* x = X.notB(X.bin(Op::Eq, toE(a, 32), X.constant(0, 32))); Expr* y = X.notB(X.bin(Op::Eq, toE(b, 32), X.constant(0, 32))); ret(s, d, fromE(X.zext(X.bin(Op::And, x, y), 32))); });
   def("vp_or", [](State& s, DInst& d, CallInfo& ci) { Val a = arg(s, ci, 0), b = arg(s, ci, 1); if ( !a.e && !b.e ) { ret(s, d, cv(a.c || b.c)); return; }
      Expr* x = X.notB(X.bin(Op::Eq, toE(a, 32), X.constant(0, 32))); Expr* y = X.notB(X.bin(Op::Eq, toE(b, 32), X.constant(0, 32))); ret(s, d, fromE(X.zext(X.bin(Op::Or, x, y), 32))); });
   def("vp_ite", [](State& s, DInst& d, CallInfo& ci) { Val c = arg(s, ci, 0), a = arg(s, ci, 1), b = arg(s, ci, 2); if ( !c.e ) { ret(s, d, c.c ? a : b); return; }
      Expr* x = X.notB(X.bin(Op::Eq, toE(c, 32), X.constant(0, 32))); ret(s, d, fromE(X.ite(x, toE(a, 64), toE(b, 64)))); });

   // ---- allocation ----
   auto alloc = [](State& s, DInst& d, CallInfo& ci) { u64 n = argC(s, ci, 0); ret(s, d, cv(heapAlloc(s, n))); };
   def("_Znwm _Znam _ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t _ZnwmSt11align_val_t _ZnamSt11align_val_t malloc", alloc);
   def("calloc", [](State& s, DInst& d, CallInfo& ci) { u64 n = argC(s, ci, 0) * argC(s, ci, 1); u64 a = heapAlloc(s, n); u64 off; Obj* o = writableAt(s, a, (unsigned)n, off, "calloc"); memset(o->d.data(), 0, o->size); ret(s, d, cv(a)); });
   def("realloc", [](State& s, DInst& d, CallInfo& ci) { u64 p = argC(s, ci, 0), n = argC(s, ci, 1); u64 a = heapAlloc(s, n); if ( p ) { int i = s.mem.find(p); if ( i < 0 || !s.mem.v[(size_t)i].o ) fault(s, "memory", "realloc of an invalid pointer"); u64 k = std::min(n, s.mem.v[(size_t)i].size); copyMem(s, a, p, k); doFree(s, p, "realloc"); } ret(s, d, cv(a)); });
   def("_ZdlPv _ZdlPvm _ZdaPv _ZdaPvm _ZdlPvSt11align_val_t _ZdlPvmSt11align_val_t _ZdaPvSt11align_val_t _ZdlPvRKSt9nothrow_t free", [](State& s, DInst& d, CallInfo& ci) { doFree(s, argC(s, ci, 0), "free"); retVoid(s); });

   // ---- memory functions ----
   def("llvm.memcpy llvm.memmove llvm.memcpy.inline", [](State& s, DInst& d, CallInfo& ci) { u64 n = argC(s, ci, 2), a = argC(s, ci, 0), b = argC(s, ci, 1); copyMem(s, a, b, n); retVoid(s); });
   def("memcpy memmove", [](State& s, DInst& d, CallInfo& ci) { u64 n = argC(s, ci, 2), a = argC(s, ci, 0), b = argC(s, ci, 1); copyMem(s, a, b, n); ret(s, d, cv(a)); });
   auto mset = [](State& s, DInst& d, CallInfo& ci, bool r) {
      u64 n = argC(s, ci, 2), a = argC(s, ci, 0); Val v = arg(s, ci, 1);
      if ( v.e && v.e->w > 8 ) v = fromE(X.trunc(v.e, 8));
      if ( n ) { u64 off; Obj* o = writableAt(s, a, (unsigned)n, off, "memset"); for ( u64 i = 0; i < n; ++i ) storeObj(o, off + i, v.e ? v : cv(v.c & 255), 8); }
      if ( r ) ret(s, d, cv(a)); else retVoid(s); };
   def("llvm.memset", [=](State& s, DInst& d, CallInfo& ci) { mset(s, d, ci, false); });
   def("memset", [=](State& s, DInst& d, CallInfo& ci) { mset(s, d, ci, true); });
   def("memcmp", [](State& s, DInst& d, CallInfo& ci) { u64 n = argC(s, ci, 2), a = argC(s, ci, 0), b = argC(s, ci, 1); ret(s, d, fromE(memcmpExpr(s, a, b, n, true))); });
   def("bcmp", [](State& s, DInst& d, CallInfo& ci) { u64 n = argC(s, ci, 2), a = argC(s, ci, 0), b = argC(s, ci, 1); ret(s, d, fromE(memcmpExpr(s, a, b, n, false))); });
   def("strlen", [](State& s, DInst& d, CallInfo& ci) {
      u64 a = argC(s, ci, 0), n = 0;
      for ( ;; ++n ) { Val p = cv(a + n); Val v = loadMem(s, p, 0, 8); if ( !v.e ) { if ( !v.c ) break; continue; } if ( decide(s, X.bin(Op::Eq, v.e, X.constant(0, 8))) ) break; }
      ret(s, d, cv(n)); });
   def("strcmp strncmp", [](State& s, DInst& d, CallInfo& ci) {
      u64 a = argC(s, ci, 0), b = argC(s, ci, 1), n = ci.args.size() > 2 ? argC(s, ci, 2) : ~0ull;
      // build the comparison result without forking; stop where both strings certainly ended
      std::vector<std::pair<Expr*, Expr*>> ch;
      for ( u64 i = 0; i < n; ++i )
      {
         Val pa = cv(a + i), pb = cv(b + i); Val x = loadMem(s, pa, 0, 8), y = loadMem(s, pb, 0, 8);
         ch.emplace_back(toE(x, 8), toE(y, 8));
         if ( (!x.e && !x.c) || (!y.e && !y.c) ) break;
         if ( !x.e && !y.e && x.c != y.c ) break;
      }
      Expr* r = X.constant(0, 32);
      for ( size_t i = ch.size(); i-- > 0; )
      {
         Expr* eq = X.bin(Op::Eq, ch[i].first, ch[i].second);
         Expr* z = X.bin(Op::Eq, ch[i].first, X.constant(0, 8));
         r = X.ite(eq, X.ite(z, X.constant(0, 32), r), X.ite(X.bin(Op::Ult, ch[i].first, ch[i].second), X.constant(~(u128)0, 32), X.constant(1, 32)));
      }
      ret(s, d, fromE(r)); });
   def("memchr", [](State& s, DInst& d, CallInfo& ci) {
      u64 a = argC(s, ci, 0), n = argC(s, ci, 2); Val c = arg(s, ci, 1); Expr* ce = X.trunc(toE(c, 32), 8);
      if ( !Exprs::isC(ce) && n )
      {
         // symbolic character, constant text (find_first_of and the like): branch on membership only
         bool constant = true;
         Expr* found = X.constant(0, 1);
         Expr* at = X.constant(a, 64);
         for ( u64 i = n; constant && i-- > 0; )
         {
            Val p = cv(a + i); Val v = loadMem(s, p, 0, 8);
            if ( v.e ) { constant = false; break; }
            Expr* q = X.bin(Op::Eq, toE(v, 8), ce);
            found = X.bin(Op::Or, q, found); at = X.ite(q, X.constant(a + i, 64), at);
         }
         if ( constant ) { ret(s, d, decide(s, found) ? fromE(at) : cv(0)); return; }
      }
      for ( u64 i = 0; i < n; ++i ) { Val p = cv(a + i); Val v = loadMem(s, p, 0, 8); Expr* q = X.bin(Op::Eq, toE(v, 8), ce); if ( Exprs::isC(q) ? q->c != 0 : decide(s, q) ) { ret(s, d, cv(a + i)); return; } }
      ret(s, d, cv(0)); });

   // ---- process / misc ----
   def("abort _ZSt9terminatev __clang_call_terminate", [](State& s, DInst& d, CallInfo& ci) { fault(s, "terminate", "std::terminate / abort called"); });
   def("exit _exit quick_exit", [](State& s, DInst& d, CallInfo& ci) { ++nExits; pathDone(s); });
   def("llvm.trap llvm.ubsantrap llvm.debugtrap", [](State& s, DInst& d, CallInfo& ci) { fault(s, "unreachable", "trap"); });
   def("__cxa_pure_virtual", [](State& s, DInst& d, CallInfo& ci) { fault(s, "terminate", "pure virtual call"); });
   def("__cxa_atexit __cxa_thread_atexit atexit", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, cv(0)); });
   def("__cxa_guard_acquire", [](State& s, DInst& d, CallInfo& ci) {
      u64 a = argC(s, ci, 0);
      if ( s.mtx[a].owner >= 0 ) { if ( s.mtx[a].owner == (int)s.cur ) fault(s, "terminate", "recursive initialisation"); TH(s).stat = T_MUTEX; TH(s).obj = a; schedule(s, false); throw Switched{}; }
      TH(s).granted = false;
      Val p = cv(a); Val v = loadMem(s, p, 0, 8, true);
      vcJoin(TH(s).vc, s.atomics[a]);
      if ( v.c & 1 ) { ret(s, d, cv(0)); return; }
      s.mtx[a].owner = (int)s.cur; ret(s, d, cv(1)); });
   def("__cxa_guard_release", [](State& s, DInst& d, CallInfo& ci) { u64 a = argC(s, ci, 0); Val p = cv(a); storeMem(s, p, 0, cv(1), 8, true); s.mtx[a].owner = -1; vcJoin(s.atomics[a], TH(s).vc); vcTick(TH(s), s.cur); retVoid(s); });
   def("__cxa_guard_abort", [](State& s, DInst& d, CallInfo& ci) { s.mtx[argC(s, ci, 0)].owner = -1; retVoid(s); });

   // ---- exceptions ----
   def("__cxa_allocate_exception", [](State& s, DInst& d, CallInfo& ci) { u64 a = allocObj(s, argC(s, ci, 0), 1); s.excs[a] = Exc{}; ret(s, d, cv(a)); });
   def("__cxa_free_exception", [](State& s, DInst& d, CallInfo& ci) { retVoid(s); });
   def("__cxa_throw", [](State& s, DInst& d, CallInfo& ci) { u64 a = argC(s, ci, 0); Exc& e = s.excs[a]; e.ti = argC(s, ci, 1); e.dtor = argC(s, ci, 2); unwind(s, a, false); });
   def("__cxa_begin_catch", [](State& s, DInst& d, CallInfo& ci) { u64 a = argC(s, ci, 0); TH(s).caught.push_back(a); ret(s, d, cv(a)); });
   def("__cxa_get_exception_ptr", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, cv(argC(s, ci, 0))); });
   def("__cxa_end_catch", [](State& s, DInst& d, CallInfo& ci) { if ( !TH(s).caught.empty() ) TH(s).caught.pop_back(); retVoid(s); });
   def("__cxa_rethrow", [](State& s, DInst& d, CallInfo& ci) { if ( TH(s).caught.empty() ) fault(s, "terminate", "rethrow without exception"); unwind(s, TH(s).caught.back(), false); });
   def("_Unwind_Resume", [](State& s, DInst& d, CallInfo& ci) { unwind(s, argC(s, ci, 0), true); });
   def("vp_current_exception", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, cv(TH(s).caught.empty() ? 0 : TH(s).caught.back())); });
   def("vp_rethrow_exception", [](State& s, DInst& d, CallInfo& ci) { unwind(s, argC(s, ci, 0), false); });
   def("_ZSt18uncaught_exceptionv _ZSt19uncaught_exceptionsv", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, cv(0)); });
   def("llvm.eh.typeid.for", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, cv((u64)tiId(argC(s, ci, 0)))); });
   def("__dynamic_cast", [](State& s, DInst& d, CallInfo& ci) {
      u64 p = argC(s, ci, 0), dst = argC(s, ci, 2);
      u64 vt = rd64(s, p); i64 off = (i64)rd64(s, vt - 16); u64 ti = rd64(s, vt - 8);
      ret(s, d, cv(tiMatch(s, ti, dst) ? p + (u64)off : 0)); });

   // ---- llvm intrinsics ----
   def("llvm.expect llvm.expect.with.probability llvm.launder.invariant.group llvm.strip.invariant.group llvm.ssa.copy llvm.annotation llvm.ptr.annotation", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, arg(s, ci, 0)); });
   def("llvm.threadlocal.address", [](State& s, DInst& d, CallInfo& ci) {
      auto gv = cast<GlobalVariable>(cast<CallBase>(d.I)->getArgOperand(0));
      auto k = std::make_pair(s.cur, (const GlobalVariable*)gv);
      auto it = s.tls.find(k);
      if ( it == s.tls.end() )
      {
         u64 a = allocObj(s, DL->getTypeAllocSize(gv->getValueType()).getFixedValue(), 3);
         u64 off; Obj* o = writableAt(s, a, 1, off, "tls"); memset(o->d.data(), 0, o->size);
         if ( gv->hasInitializer() ) { std::vector<Flat> f; flatten(gv->getValueType(), 0, f); std::vector<Val> v; constVals(gv->getInitializer(), v); for ( size_t i = 0; i < f.size(); ++i ) storeObj(o, f[i].off, v[i], f[i].w); }
         it = s.tls.emplace(k, a).first;
      }
      ret(s, d, cv(it->second)); });
   def("llvm.umax", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, minmax(arg(s, ci, 0), arg(s, ci, 1), ci.widths[0], false, true)); });
   def("llvm.umin", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, minmax(arg(s, ci, 0), arg(s, ci, 1), ci.widths[0], false, false)); });
   def("llvm.smax", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, minmax(arg(s, ci, 0), arg(s, ci, 1), ci.widths[0], true, true)); });
   def("llvm.smin", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, minmax(arg(s, ci, 0), arg(s, ci, 1), ci.widths[0], true, false)); });
   def("llvm.abs", [](State& s, DInst& d, CallInfo& ci) { unsigned w = ci.widths[0]; Expr* a = argE(s, ci, 0); ret(s, d, fromE(X.ite(X.bin(Op::Slt, a, X.constant(0, w)), X.bin(Op::Sub, X.constant(0, w), a), a))); });
   def("abs labs llabs", [](State& s, DInst& d, CallInfo& ci) { unsigned w = ci.widths[0]; Expr* a = argE(s, ci, 0); ret(s, d, fromE(X.ite(X.bin(Op::Slt, a, X.constant(0, w)), X.bin(Op::Sub, X.constant(0, w), a), a))); });
   def("llvm.ctpop", [](State& s, DInst& d, CallInfo& ci) { Val a = arg(s, ci, 0); if ( !a.e ) { ret(s, d, cv((u64)__builtin_popcountll(a.c & m64(ci.widths[0])))); return; } ret(s, d, fromE(popcnt(a.e))); });
   def("llvm.cttz", [](State& s, DInst& d, CallInfo& ci) { unsigned w = ci.widths[0]; Expr* a = argE(s, ci, 0); Expr* r = X.constant(w, w); for ( unsigned i = w; i-- > 0; ) r = X.ite(X.extract(a, i, 1), X.constant(i, w), r); ret(s, d, fromE(r)); });
   def("llvm.ctlz", [](State& s, DInst& d, CallInfo& ci) { unsigned w = ci.widths[0]; Expr* a = argE(s, ci, 0); Expr* r = X.constant(w, w); for ( unsigned i = 0; i < w; ++i ) r = X.ite(X.extract(a, i, 1), X.constant(w - 1 - i, w), r); ret(s, d, fromE(r)); });
   def("llvm.bswap", [](State& s, DInst& d, CallInfo& ci) { unsigned w = ci.widths[0]; Expr* a = argE(s, ci, 0); Expr* r = X.extract(a, 0, 8); for ( unsigned i = 8; i < w; i += 8 ) r = X.concat(r, X.extract(a, i, 8)); ret(s, d, fromE(r)); });
   auto fsh = [](State& s, DInst& d, CallInfo& ci, bool left) {
      unsigned w = ci.widths[0]; Expr* a = argE(s, ci, 0); Expr* b = argE(s, ci, 1); u64 n = argC(s, ci, 2) % w;
      Expr* W = nullptr;
      if ( n == 0 ) { ret(s, d, fromE(left ? a : b)); return; }
      unsigned sh = left ? (unsigned)n : w - (unsigned)n;
      W = X.bin(Op::Or, X.bin(Op::Shl, a, X.constant(sh, w)), X.bin(Op::LShr, b, X.constant(w - sh, w)));
      ret(s, d, fromE(W)); };
   def("llvm.fshl", [=](State& s, DInst& d, CallInfo& ci) { fsh(s, d, ci, true); });
   def("llvm.fshr", [=](State& s, DInst& d, CallInfo& ci) { fsh(s, d, ci, false); });
   def("llvm.sadd.with.overflow", [](State& s, DInst& d, CallInfo& ci) { overflowOp(s, d, ci, Op::Add, true); });
   def("llvm.ssub.with.overflow", [](State& s, DInst& d, CallInfo& ci) { overflowOp(s, d, ci, Op::Sub, true); });
   def("llvm.smul.with.overflow", [](State& s, DInst& d, CallInfo& ci) { overflowOp(s, d, ci, Op::Mul, true); });
   def("llvm.uadd.with.overflow", [](State& s, DInst& d, CallInfo& ci) { overflowOp(s, d, ci, Op::Add, false); });
   def("llvm.usub.with.overflow", [](State& s, DInst& d, CallInfo& ci) { overflowOp(s, d, ci, Op::Sub, false); });
   def("llvm.umul.with.overflow", [](State& s, DInst& d, CallInfo& ci) { overflowOp(s, d, ci, Op::Mul, false); });
   def("llvm.usub.sat", [](State& s, DInst& d, CallInfo& ci) { unsigned w = ci.widths[0]; Expr* a = argE(s, ci, 0); Expr* b = argE(s, ci, 1); ret(s, d, fromE(X.ite(X.bin(Op::Ult, a, b), X.constant(0, w), X.bin(Op::Sub, a, b)))); });
   def("llvm.uadd.sat", [](State& s, DInst& d, CallInfo& ci) { unsigned w = ci.widths[0]; Expr* a = argE(s, ci, 0); Expr* b = argE(s, ci, 1); Expr* r = X.bin(Op::Add, a, b); ret(s, d, fromE(X.ite(X.bin(Op::Ult, r, a), X.constant(~(u128)0, w), r))); });
   def("llvm.objectsize", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, cv(~0ull)); });
   def("llvm.is.constant", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, cv(0)); });
   def("llvm.stacksave", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, cv(0)); });
   def("llvm.invariant.start", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, cv(0)); });
   def("llvm.ptrmask", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, fromE(X.bin(Op::And, argE(s, ci, 0), X.zext(argE(s, ci, 1), 64)))); });
   def("llvm.fabs fabs", [](State& s, DInst& d, CallInfo& ci) { unsigned w = ci.widths[0]; Val v = arg(s, ci, 0); if ( v.e ) throw Unsupported{"symbolic fp"}; ret(s, d, cv(v.c & (m64(w) >> 1))); });
   auto fp1 = [](const char* names, double (*f)(double)) { def(names, [f](State& s, DInst& d, CallInfo& ci) { Val v = arg(s, ci, 0); if ( v.e ) throw Unsupported{"symbolic floating point"}; if ( ci.widths[0] == 32 ) { float x; u32 y = (u32)v.c; memcpy(&x, &y, 4); x = (float)f(x); memcpy(&y, &x, 4); ret(s, d, cv(y)); } else { double x; memcpy(&x, &v.c, 8); x = f(x); u64 y; memcpy(&y, &x, 8); ret(s, d, cv(y)); } }); };
   fp1("llvm.ceil ceil ceilf", ceil); fp1("llvm.floor floor floorf", floor); fp1("llvm.sqrt sqrt", sqrt); fp1("llvm.trunc trunc", trunc);

   // ---- threads ----
   def("vp_thread_create", [](State& s, DInst& d, CallInfo& ci) { u64 f = argC(s, ci, 0), a = argC(s, ci, 1); u32 id = newThread(s, f, a); ret(s, d, cv(id)); });
   def("vp_thread_self", [](State& s, DInst& d, CallInfo& ci) { ret(s, d, cv(s.cur)); });
   def("vp_thread_join", [](State& s, DInst& d, CallInfo& ci) {
      u64 t = argC(s, ci, 0); Thread& me = TH(s);
      if ( t >= s.th.size() || t == s.cur ) fault(s, "deadlock", "join of an invalid thread");
      if ( !me.granted ) { me.stat = T_JOIN; me.obj = t; schedule(s, false); throw Switched{}; }
      me.granted = false; vcJoin(me.vc, s.th[(size_t)t].vc); retVoid(s); });
   def("vp_thread_yield", [](State& s, DInst& d, CallInfo& ci) { if ( opt.explore ) visible(s); retVoid(s); });
   def("vp_mutex_lock pthread_mutex_lock", [](State& s, DInst& d, CallInfo& ci) {
      u64 m = argC(s, ci, 0); Thread& me = TH(s); Mutex& x = s.mtx[m];
      if ( x.owner == (int)s.cur ) fault(s, "deadlock", "a thread locks a mutex it already holds");
      if ( !me.granted ) { if ( s.th.size() > 1 ) { me.stat = T_MUTEX; me.obj = m; schedule(s, false); throw Switched{}; } }
      me.granted = false;
      if ( x.owner >= 0 ) { me.stat = T_MUTEX; me.obj = m; schedule(s, false); throw Switched{}; }
      x.owner = (int)s.cur; vcJoin(me.vc, x.vc);
      if ( d.dst >= 0 ) ret(s, d, cv(0)); else retVoid(s); });
   def("vp_mutex_trylock", [](State& s, DInst& d, CallInfo& ci) {
      u64 m = argC(s, ci, 0); visible(s); Mutex& x = s.mtx[m];
      bool ok = x.owner < 0; if ( ok ) { x.owner = (int)s.cur; vcJoin(TH(s).vc, x.vc); }
      ret(s, d, cv(ok ? 1 : 0)); });
   def("vp_mutex_unlock pthread_mutex_unlock", [](State& s, DInst& d, CallInfo& ci) {
      u64 m = argC(s, ci, 0); if ( s.mtx[m].owner != (int)s.cur ) fault(s, "lock-misuse", "a thread unlocks a mutex it does not hold");
      lockRelease(s, m); if ( d.dst >= 0 ) ret(s, d, cv(0)); else retVoid(s); });
   // vp_cond_wait(cond, mutex, timed) -> 1 if woken by timeout
   def("vp_cond_wait", [](State& s, DInst& d, CallInfo& ci) {
      u64 c = argC(s, ci, 0), m = argC(s, ci, 1); bool timed = argC(s, ci, 2) != 0; Thread& me = TH(s);
      if ( me.done == 1 )
      {
         if ( s.mtx[m].owner >= 0 ) { me.stat = T_MUTEX; me.obj = m; schedule(s, false); throw Switched{}; }
         me.granted = false; me.done = 0; s.mtx[m].owner = (int)s.cur; vcJoin(me.vc, s.mtx[m].vc);
         bool to = me.wokeByTimeout; me.wokeByTimeout = false; me.timed = false;
         ret(s, d, cv(to)); return;
      }
      if ( s.mtx[m].owner != (int)s.cur ) fault(s, "lock-misuse", "condition wait without holding the mutex");
      visible(s);
      lockRelease(s, m); me.done = 1; me.stat = T_COND; me.obj = c; me.obj2 = m; me.timed = timed; me.wokeByTimeout = false;
      schedule(s, true); throw Switched{}; });
   def("vp_cond_notify", [](State& s, DInst& d, CallInfo& ci) {
      u64 c = argC(s, ci, 0); bool all = argC(s, ci, 1) != 0;
      if ( TH(s).done < 1000 ) visible(s); else TH(s).granted = false;
      std::vector<u32> W; for ( u32 t = 0; t < s.th.size(); ++t ) if ( s.th[t].stat == T_COND && s.th[t].obj == c ) W.push_back(t);
      auto wk = [&](u32 t) { s.th[t].stat = T_MUTEX; s.th[t].obj = s.th[t].obj2; s.th[t].timed = false; };
      if ( all ) for ( u32 t : W ) wk(t);
      else if ( !W.empty() ) { int k = choose(s, (u32)W.size()); wk(W[(size_t)k]); }
      retVoid(s); });
}
