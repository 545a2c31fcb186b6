static Val binop(State &st, unsigned op, Val a, Val b, unsigned w) {
  // shifting by the width or more is undefined in C; the machine the code runs on uses the amount modulo the width
  if ((op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) && (w == 32 || w == 64)) { if (!b.e) b.c = b.c & (w - 1); else b = V(P.bin(E_AND, b.e, P.k(w - 1, w))); }
  if (!a.e && !b.e) {
    u64 m = mask(w), x = a.c & m, y = b.c & m;
    switch (op) {
      case Instruction::Add: return C((x + y) & m); case Instruction::Sub: return C((x - y) & m); case Instruction::Mul: return C((x * y) & m);
      case Instruction::And: return C(x & y); case Instruction::Or: return C(x | y); case Instruction::Xor: return C(x ^ y);
      case Instruction::Shl: return C(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return C(y >= w ? 0 : x >> y); case Instruction::AShr: return C(P.fold(E_ASHR, w, x, y));
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (!y) err(st, "division-by-zero", "division by zero");
        return C(P.fold(op == Instruction::UDiv ? E_UDIV : op == Instruction::URem ? E_UREM : op == Instruction::SDiv ? E_SDIV : E_SREM, w, x, y));
      default: fatal("binop"); }
  }
  Expr *x = X(a, w), *y = X(b, w); EOp e;
  switch (op) {
    case Instruction::Add: e = E_ADD; break; case Instruction::Sub: e = E_SUB; break; case Instruction::Mul: e = E_MUL; break; case Instruction::And: e = E_AND; break; case Instruction::Or: e = E_OR; break; case Instruction::Xor: e = E_XOR; break;
    case Instruction::Shl: e = E_SHL; break; case Instruction::LShr: e = E_LSHR; break; case Instruction::AShr: e = E_ASHR; break;
    case Instruction::UDiv: e = E_UDIV; break; case Instruction::URem: e = E_UREM; break; case Instruction::SDiv: e = E_SDIV; break; case Instruction::SRem: e = E_SREM; break;
    default: fatal("binop"); }
  if (e == E_UDIV || e == E_UREM || e == E_SDIV || e == E_SREM) { Expr *z = P.bin(E_EQ, y, P.k(0, w)); if (decide(st, z)) err(st, "division-by-zero", "division by zero"); }
  return V(P.bin(e, x, y));
}
static Val icmp(unsigned pr, Val a, Val b, unsigned w) {
  if (!a.e && !b.e) { u64 x = a.c & mask(w), y = b.c & mask(w); i64 p = sx(x, w), q = sx(y, w);
    switch (pr) { case CmpInst::ICMP_EQ: return C(x == y); case CmpInst::ICMP_NE: return C(x != y); case CmpInst::ICMP_ULT: return C(x < y); case CmpInst::ICMP_ULE: return C(x <= y); case CmpInst::ICMP_UGT: return C(x > y); case CmpInst::ICMP_UGE: return C(x >= y); case CmpInst::ICMP_SLT: return C(p < q); case CmpInst::ICMP_SLE: return C(p <= q); case CmpInst::ICMP_SGT: return C(p > q); case CmpInst::ICMP_SGE: return C(p >= q); default: fatal("icmp"); } }
  Expr *x = X(a, w), *y = X(b, w);
  switch (pr) { case CmpInst::ICMP_EQ: return V(P.bin(E_EQ, x, y)); case CmpInst::ICMP_NE: return V(P.notE(P.bin(E_EQ, x, y))); case CmpInst::ICMP_ULT: return V(P.bin(E_ULT, x, y)); case CmpInst::ICMP_ULE: return V(P.bin(E_ULE, x, y)); case CmpInst::ICMP_UGT: return V(P.bin(E_ULT, y, x)); case CmpInst::ICMP_UGE: return V(P.bin(E_ULE, y, x)); case CmpInst::ICMP_SLT: return V(P.bin(E_SLT, x, y)); case CmpInst::ICMP_SLE: return V(P.bin(E_SLE, x, y)); case CmpInst::ICMP_SGT: return V(P.bin(E_SLT, y, x)); case CmpInst::ICMP_SGE: return V(P.bin(E_SLE, y, x)); default: fatal("icmp"); }
}
static Expr *lowerE(Expr *b) { return P.ite(P.bin(E_AND, P.bin(E_ULE, P.k('A', 8), b), P.bin(E_ULE, b, P.k('Z', 8))), P.bin(E_ADD, b, P.k(32, 8)), b); }
static bool inB(State &st, u64 a, ObjTab *&t, int &i) { if (a < 4096) return false; i = findObj(st, a, t); if (i < 0) return false; Obj &o = *t->v[i]; return o.alive && a - o.base < o.size; }
// merged string comparison: builds one expression instead of forking per byte
static Val strcmpM(State &st, u64 a, u64 b, u64 n, bool ci) {
  std::vector<std::pair<Expr *, Expr *>> bs; Expr *done = P.k(0, 1);
  for (u64 k = 0; k < n; k++) {
    ObjTab *ta, *tb; int ia, ib;
    bool va = inB(st, a + k, ta, ia), vb = inB(st, b + k, tb, ib);
    if (!va || !vb) { if (done->op == E_CONST || !decide(st, done)) { ObjTab *t; chk(st, va ? b + k : a + k, 1, false, t); } break; }
    raceAcc(st, ta, ia, a + k - ta->v[ia]->base, 1, false); raceAcc(st, tb, ib, b + k - tb->v[ib]->base, 1, false);
    Expr *x = byteAt(ta, ia, a + k - ta->v[ia]->base), *y = byteAt(tb, ib, b + k - tb->v[ib]->base);
    if (ci) { x = lowerE(x); y = lowerE(y); }
    bs.push_back({x, y});
    Expr *stop = P.bin(E_OR, P.notE(P.bin(E_EQ, x, y)), P.bin(E_EQ, x, P.k(0, 8)));
    done = P.bin(E_OR, done, stop);
    if (stop->op == E_CONST && stop->val) break;
  }
  Expr *r = P.k(0, 32);
  for (size_t k = bs.size(); k-- > 0;) { Expr *x = bs[k].first, *y = bs[k].second; Expr *d = P.bin(E_SUB, P.zext(x, 32), P.zext(y, 32));
    r = P.ite(P.bin(E_EQ, x, y), P.ite(P.bin(E_EQ, x, P.k(0, 8)), P.k(0, 32), r), d); }
  return V(r);
}
static Val memcmpM(State &st, u64 a, u64 b, u64 n) {
  if (!n) return C(0);
  ObjTab *ta, *tb; int ia = chk(st, a, n, false, ta), ib = chk(st, b, n, false, tb);
  u64 oa = a - ta->v[ia]->base, ob = b - tb->v[ib]->base;
  if (allConc(*ta->v[ia], oa, n) && allConc(*tb->v[ib], ob, n)) { int r = memcmp(&ta->v[ia]->c[oa], &tb->v[ib]->c[ob], n); return C((u32)(r < 0 ? -1 : r > 0)); }
  Expr *r = P.k(0, 32);
  for (u64 k = n; k-- > 0;) { Expr *x = byteAt(ta, ia, oa + k), *y = byteAt(tb, ib, ob + k); r = P.ite(P.bin(E_EQ, x, y), r, P.bin(E_SUB, P.zext(x, 32), P.zext(y, 32))); }
  return V(r);
}
static Val strlenM(State &st, u64 a, u64 n) {
  for (u64 k = 0; k < n; k++) { ObjTab *t; int i = chk(st, a + k, 1, false, t); 
    Obj &o = *t->v[i]; u64 off = a + k - o.base;
    if (o.s.empty() && o.un.empty()) { u64 lim = std::min(o.size - off, n - k); const void *z = memchr(&o.c[off], 0, lim); if (st.race) { raceAcc(st, t, i, off, z ? (const u8 *)z - &t->v[i]->c[off] + 1 : lim, false); } if (z) return C(k + ((const u8 *)z - &o.c[off])); k += lim - 1; continue; }
    Expr *b = byteAt(t, i, off); if (b->op == E_CONST) { if (!b->val) return C(k); continue; }
    if (dependsUndef(st, b)) err(st, "uninitialised", "string length depends on uninitialised data");
    if (decide(st, P.bin(E_EQ, b, P.k(0, 8)))) return C(k); }
  return C(n);
}
static u64 inputIdx = 0;
static void newInput(State &st, const std::string &name, std::vector<Expr *> b, int kind) { st.inputs.push_back({name, b, kind}); }
static Expr *freshVar(State &st, const std::string &name, unsigned w) { 
  // variables are shared between paths: the k-th variable of a path with the same name and width is one solver variable
  static std::map<std::pair<std::string, unsigned>, Expr *> pool; (void)st; auto &e = pool[{name, w}]; if (!e) e = P.var(name, w); return e; }
static bool callBuiltin(State &st, const CInst &ci, std::vector<Val> &a) {
  auto ret = [&](Val v) { if (ci.dst != ~0u) st.fr.back().r[ci.dst] = v; st.fr.back().pc++; return true; };
  switch (ci.builtin) {
    case B_MALLOC: { u64 n = CV(st, a[0]); return ret(C(heapAlloc(st, n, false, "malloc"))); }
    case B_CALLOC: { u64 x = CV(st, a[0]), y = CV(st, a[1]); if (y && x > ~0ULL / y) return ret(C(0)); return ret(C(heapAlloc(st, x * y, true, "calloc"))); }
    case B_REALLOC: { u64 p = CV(st, a[0]), n = CV(st, a[1]); if (!p) return ret(C(heapAlloc(st, n, false, "realloc")));
      ObjTab *t; int i = findObj(st, p, t); if (i < 0 || t->v[i]->base != p || t->v[i]->kind != K_HEAP) err(st, "invalid-free", "realloc of " + describe(st, p)); if (!t->v[i]->alive) err(st, "use-after-free", "realloc of freed " + t->v[i]->name);
      if (!n) { heapFree(st, p, "realloc(0)"); return ret(C(0)); }
      u64 old = t->v[i]->size; u64 q = heapAlloc(st, n, false, "realloc"); if (!q) return ret(C(0)); copyMem(st, q, p, std::min(old, n), true); heapFree(st, p, "realloc"); return ret(C(q)); }
    case B_FREE: heapFree(st, CV(st, a[0]), "free"); return ret(C(0));
    case B_MEMCPY: case B_MEMMOVE: { u64 n = CV(st, a[2]); u64 d = n ? CV(st, a[0]) : 0, s = n ? CV(st, a[1]) : 0; copyMem(st, d, s, n, ci.builtin == B_MEMMOVE); return ret(n ? C(d) : a[0]); }
    case B_MEMSET: { u64 n = CV(st, a[2]); u64 d = n ? CV(st, a[0]) : 0; setMem(st, d, a[1], n); return ret(n ? C(d) : a[0]); }
    case B_MEMCMP: { u64 n = CV(st, a[2]); u64 p = CV(st, a[0]), q = CV(st, a[1]); return ret(memcmpM(st, p, q, n)); }
    case B_STRCMP: case B_STRCASECMP: { u64 p = CV(st, a[0]), q = CV(st, a[1]); return ret(strcmpM(st, p, q, ~0ULL, ci.builtin == B_STRCASECMP)); }
    case B_STRNCMP: case B_STRNCASECMP: { u64 n = CV(st, a[2]); u64 p = CV(st, a[0]), q = CV(st, a[1]); return ret(strcmpM(st, p, q, n, ci.builtin == B_STRNCASECMP)); }
    case B_STRLEN: return ret(strlenM(st, CV(st, a[0]), ~0ULL));
    case B_STRNLEN: { u64 n = CV(st, a[1]); return ret(strlenM(st, CV(st, a[0]), n)); }
    case B_ABORT: err(st, "abort", "abort() called");
    case B_TRAP: err(st, "abort", "trap");
    case B_EXIT: err(st, "exit", "exit() called");
    case B_ASSERT_FAIL: err(st, "assert", "assertion '" + cstr(st, CV(st, a[0])) + "' failed");
    case B_SYM_BYTES: { u64 p = CV(st, a[0]), n = CV(st, a[1]); std::string nm = cstr(st, CV(st, a[2])); std::vector<Expr *> bs; u32 seq = st.inputs.size();
      if (n) { ObjTab *t; int i = chk(st, p, n, true, t); Obj &o = W(t, i); for (u64 k = 0; k < n; k++) { Expr *e = freshVar(st, nm + "#" + std::to_string(seq) + "[" + std::to_string(k) + "]", 8); storeByte(o, p - o.base + k, e); bs.push_back(e); } }
      newInput(st, nm, bs, 0); return ret(C(0)); }
    case B_SYM_NUM: case B_SYM_PICK: { u64 lo = CV(st, a[0]), hi = CV(st, a[1]); std::string nm = cstr(st, CV(st, a[2])); unsigned w = hi <= 0xff ? 8 : hi <= 0xffff ? 16 : hi <= 0xffffffffULL ? 32 : 64;
      // identified by position so that re-execution (sym_pick forks) finds the same variable
      Expr *e = freshVar(st, nm + "#" + std::to_string(st.inputs.size()), w);
      if (ci.builtin == B_SYM_PICK) {
        if (lo == hi) { newInput(st, nm, {P.k(lo, 8), P.k(lo >> 8, 8), P.k(lo >> 16, 8), P.k(lo >> 24, 8), P.k(lo >> 32, 8), P.k(lo >> 40, 8), P.k(lo >> 48, 8), P.k(lo >> 56, 8)}, 1); return ret(C(lo)); } }
      Expr *r = P.bin(E_AND, P.bin(E_ULE, P.k(lo, w), e), P.bin(E_ULE, e, P.k(hi, w)));
      if (!(r->op == E_CONST && r->val)) { if (!mval(st, r)) { if (st.model.size() <= e->val) st.model.resize(e->val + 1, 0); bool constrained = false; for (auto c : st.cons) for (u32 v : *c->vars) if (v == e->val) constrained = true; if (constrained) fatal("sym_num model"); st.model[e->val] = lo; } addCons(st, r); }
      Expr *x = P.zext(e, 64);
      u64 cv = 0; if (ci.builtin == B_SYM_PICK) cv = concretize(st, x);
      std::vector<Expr *> bs; for (int k = 0; k < 8; k++) bs.push_back(P.extract(x, k * 8, 8)); newInput(st, nm, bs, 1);
      return ret(ci.builtin == B_SYM_PICK ? C(cv) : V(x)); }
    case B_ASSUME: { Expr *c = X(a[0], ci.argw[0]); c = P.notE(P.bin(E_EQ, c, P.k(0, c->w))); if (c->op == E_CONST) { if (!c->val) { S.assumeKill++; throw PathEnd(); } return ret(C(0)); }
      if (!mval(st, c)) { std::vector<u64> nm; R r = query(st, c, &nm); if (r == UNK) { incomplete("solver returned unknown for an assumption"); } if (r != SAT) { S.assumeKill++; throw PathEnd(); } st.model = nm; }
      addCons(st, c); return ret(C(0)); }
    case B_ASSERT: { S.asserts++; Expr *c = X(a[0], ci.argw[0]); c = P.notE(P.bin(E_EQ, c, P.k(0, c->w))); std::string msg = cstr(st, CV(st, a[1]));
      if (dependsUndef(st, c)) { report(st, "uninitialised", "asserted value depends on uninitialised data: " + msg); throw PathEnd(); }
      if (c->op == E_CONST) { if (!c->val) err(st, "assertion", msg); return ret(C(0)); }
      Expr *n = P.notE(c); std::vector<u64> nm; R r = mval(st, c) ? query(st, n, &nm) : SAT;
      if (r == UNK) incomplete("solver returned unknown for an assertion");
      if (r == SAT) { if (!mval(st, c)) nm = st.model; std::vector<u64> keepm = st.model; st.model = nm; report(st, "assertion", msg); std::vector<u64> pm; if (query(st, c, &pm) != SAT) throw PathEnd(); st.model = pm; }
      addCons(st, c); return ret(C(0)); }
    case B_REACH: S.reach[cstr(st, CV(st, a[0]))]++; return ret(C(0));
    case B_LIVE: return ret(C(st.live));
    case B_REUSE: { st.reuse = CV(st, a[0]) != 0; return ret(C(0)); }
    case B_FAIL_AT: { i64 o = st.failAt; st.failAt = (i64)CV(st, a[0]); return ret(C((u64)o)); }
    case B_NALLOC: return ret(C(st.nalloc));
    case B_INIT: { u64 p = CV(st, a[0]), n = CV(st, a[1]); if (!n) return ret(C(1)); ObjTab *t; int i = chk(st, p, n, false, t); Obj &o = *t->v[i]; for (u64 k = 0; k < n; k++) if (isUndef(o, p - o.base + k)) { if (!o.s.empty() && o.s[p - o.base + k] && !dependsUndef(st, o.s[p - o.base + k])) continue; return ret(C(0)); } return ret(C(1)); }
    case B_VALID: { u64 p = CV(st, a[0]), n = CV(st, a[1]); ObjTab *t; int i; if (!inB(st, p, t, i)) return ret(C(0)); Obj &o = *t->v[i]; return ret(C(n <= o.size - (p - o.base))); }
    case B_ITE: { Expr *c = X(a[0], ci.argw[0]); c = P.notE(P.bin(E_EQ, c, P.k(0, c->w))); return ret(V(P.ite(c, X(a[1], 64), X(a[2], 64)))); }
    case B_SYMEQ: { u64 n = CV(st, a[2]); u64 p = CV(st, a[0]), q = CV(st, a[1]); if (!n) return ret(C(1)); ObjTab *tp, *tq; int ip = chk(st, p, n, false, tp), iq = chk(st, q, n, false, tq); Expr *r = P.k(1, 1); for (u64 k = 0; k < n; k++) r = P.bin(E_AND, r, P.bin(E_EQ, byteAt(tp, ip, p + k - tp->v[ip]->base), byteAt(tq, iq, q + k - tq->v[iq]->base))); return ret(V(P.zext(r, 32))); }
    case B_STOP: throw Done();
    case B_RACES: st.race = true; for (int k = 0; k < NT; k++) st.vc[k][k] = 1; return ret(C(0));
    case B_THREAD: { u64 k = CV(st, a[0]); if (k >= NT) fatal("more threads than the engine has"); st.tid = (int)k; return ret(C(0)); }
    case B_TID: return ret(C((u64)st.tid));
    case B_ACQUIRE: if (st.race) acquire(st, CV(st, a[0])); return ret(C(0));
    case B_RELEASE: if (st.race) release(st, CV(st, a[0])); return ret(C(0));
    case B_TOUCH: { u64 p = CV(st, a[0]), n = CV(st, a[1]); bool wr = CV(st, a[2]) != 0; if (st.race && n) { ObjTab *t; int i; if (inB(st, p, t, i)) { Obj &o = *t->v[i]; raceAcc(st, t, i, p - o.base, std::min(n, o.size - (p - o.base)), wr, true); } } return ret(C(0)); }
    case B_TLS: { u64 p = CV(st, a[0]); auto key = std::make_pair(p, st.tid); auto it = st.tls.find(key); if (it != st.tls.end()) return ret(C(it->second));
      ObjTab *t; int i = findObj(st, p, t); Obj *o = new Obj(*t->v[i].p); o->rc = 0; o->base = st.hNext; o->name = "tls:" + o->name; o->ro = false; st.hNext += ((o->size + 15) & ~15ULL) + GAP; st.h.v.push_back(ObjP(o)); st.tls[key] = o->base; return ret(C(o->base)); }
    case B_ARG: return ret(C(O.arg));
    case B_ENGINE: return ret(C(1));
    case B_CONC: return ret(C(CV(st, a[0])));
    case B_ISSYM: return ret(C(a[0].e != nullptr));
    case B_PRINTDBG: { fprintf(stderr, "DBG %s = %s%llu live=%llu insts=%llu\n", cstr(st, CV(st, a[0])).c_str(), a[1].e ? "(sym) " : "", (unsigned long long)(a[1].e ? mval(st, a[1].e) : a[1].c), (unsigned long long)st.live, (unsigned long long)st.insts); return ret(C(0)); }
    case B_LOG10: return ret(C(UD(log10(D(CV(st, a[0])))))); case B_FLOOR: return ret(C(UD(floor(D(CV(st, a[0])))))); case B_CEIL: return ret(C(UD(ceil(D(CV(st, a[0])))))); case B_LOG: return ret(C(UD(log(D(CV(st, a[0])))))); case B_SQRT: return ret(C(UD(sqrt(D(CV(st, a[0])))))); case B_FABS: return ret(C(UD(fabs(D(CV(st, a[0])))))); case B_LOG2: return ret(C(UD(log2(D(CV(st, a[0])))))); case B_ROUND: return ret(C(UD(round(D(CV(st, a[0])))))); case B_TRUNC: return ret(C(UD(trunc(D(CV(st, a[0]))))));
    case B_POW: { u64 x = CV(st, a[0]), y = CV(st, a[1]); return ret(C(UD(pow(D(x), D(y))))); }
    case B_LIFE_START: case B_LIFE_END: { u64 p = CV(st, a[1]); ObjTab *t; int i = findObj(st, p, t); if (i >= 0 && t->v[i]->base == p && t->v[i]->kind == K_STACK) { Obj &o = W(t, i); o.alive = ci.builtin == B_LIFE_START; o.un.assign(o.size, 1); o.s.clear(); } return ret(C(0)); }
    case B_VASTART: { u64 p = CV(st, a[0]); u64 va = st.fr.back().va; storeMem(st, C(p), C(48), 32); storeMem(st, C(p + 4), C(176), 32); storeMem(st, C(p + 8), C(va), 64); storeMem(st, C(p + 16), C(0), 64); return ret(C(0)); }
    case B_VACOPY: copyMem(st, CV(st, a[0]), CV(st, a[1]), 24, true); return ret(C(0));
    case B_VAEND: case B_IGNORE: return ret(C(0));
    case B_STACKSAVE: return ret(C(st.st.v.size() + 1000000)); 
    case B_STACKRESTORE: { u64 m = CV(st, a[0]); if (m >= 1000000 && m - 1000000 <= st.st.v.size()) st.st.v.resize(m - 1000000); return ret(C(0)); }
    case B_EXPECT: return ret(a[0]);
    case B_OBJSIZE: return ret(C(a[1].c ? 0 : ~0ULL & mask(ci.w)));
    case B_ISCONST: return ret(C(0));
    case B_BSWAP: { Expr *e = X(a[0], ci.w), *r = nullptr; for (unsigned k = 0; k < ci.w; k += 8) { Expr *b = P.extract(e, k, 8); r = r ? P.concat(r, b) : b; } return ret(V(r)); }
    case B_CTPOP: { Expr *e = X(a[0], ci.w), *r = P.k(0, ci.w); for (unsigned k = 0; k < ci.w; k++) r = P.bin(E_ADD, r, P.zext(P.extract(e, k, 1), ci.w)); return ret(V(r)); }
    case B_CTLZ: { Expr *e = X(a[0], ci.w), *r = P.k(ci.w, ci.w); for (unsigned k = 0; k < ci.w; k++) r = P.ite(P.extract(e, k, 1), P.k(ci.w - 1 - k, ci.w), r); return ret(V(r)); }
    case B_CTTZ: { Expr *e = X(a[0], ci.w), *r = P.k(ci.w, ci.w); for (unsigned k = ci.w; k-- > 0;) r = P.ite(P.extract(e, k, 1), P.k(k, ci.w), r); return ret(V(r)); }
    case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: { Expr *x = X(a[0], ci.w), *y = X(a[1], ci.w); bool u = ci.builtin == B_UMIN || ci.builtin == B_UMAX, mn = ci.builtin == B_UMIN || ci.builtin == B_SMIN; Expr *c = P.bin(u ? E_ULT : E_SLT, x, y); return ret(V(mn ? P.ite(c, x, y) : P.ite(c, y, x))); }
    case B_ABS: { Expr *x = X(a[0], ci.w); return ret(V(P.ite(P.bin(E_SLT, x, P.k(0, ci.w)), P.bin(E_SUB, P.k(0, ci.w), x), x))); }
    case B_UADDSAT: { Expr *x = X(a[0], ci.w), *y = X(a[1], ci.w), *s = P.bin(E_ADD, x, y); return ret(V(P.ite(P.bin(E_ULT, s, x), P.k(~0ULL, ci.w), s))); }
    case B_USUBSAT: { Expr *x = X(a[0], ci.w), *y = X(a[1], ci.w); return ret(V(P.ite(P.bin(E_ULT, x, y), P.k(0, ci.w), P.bin(E_SUB, x, y)))); }
    case B_FSHL: case B_FSHR: { Expr *x = X(a[0], ci.w), *y = X(a[1], ci.w); u64 s = CV(st, a[2]) % ci.w; bool l = ci.builtin == B_FSHL; if (!s) return ret(V(l ? x : y)); u64 q = l ? s : ci.w - s; return ret(V(P.bin(E_OR, P.bin(E_SHL, x, P.k(q, ci.w)), P.bin(E_LSHR, y, P.k(ci.w - q, ci.w))))); }
    case B_UADDO: case B_USUBO: case B_UMULO: case B_SADDO: case B_SSUBO: case B_SMULO: {
      unsigned w = ci.argw[0]; Frame &f = st.fr.back(); Expr *r, *ov;
      bool mul = ci.builtin == B_UMULO || ci.builtin == B_SMULO;
      if (mul) { u64 y = a[1].e ? (a[0].e ? (a[1] = C(concretize(st, a[1].e)), a[1].c) : 0) : a[1].c; (void)y; Val s = a[0].e ? a[0] : a[1], k = a[0].e ? a[1] : a[0]; 
        if (!s.e) { __int128 p; bool o; if (ci.builtin == B_UMULO) { unsigned __int128 q = (unsigned __int128)s.c * k.c; o = (q >> w) != 0; r = P.k((u64)q, w); } else { p = (__int128)sx(s.c, w) * sx(k.c, w); r = P.k((u64)p, w); o = p != (__int128)sx((u64)p & mask(w), w); } ov = P.k(o, 1); }
        else { r = P.bin(E_MUL, s.e, P.k(k.c, w)); if (ci.builtin == B_UMULO) ov = k.c ? P.bin(E_ULT, P.k(mask(w) / k.c, w), s.e) : P.k(0, 1); else { if (w > 32) { u64 v = concretize(st, s.e); __int128 p = (__int128)sx(v, w) * sx(k.c, w); ov = P.k(p != (__int128)sx((u64)p & mask(w), w), 1); } else { Expr *wide = P.bin(E_MUL, P.sext(s.e, 64), P.k((u64)sx(k.c, w), 64)); ov = P.notE(P.bin(E_EQ, wide, P.sext(r, 64))); } } } }
      else { Expr *x = X(a[0], w), *y = X(a[1], w);
        switch (ci.builtin) { case B_UADDO: r = P.bin(E_ADD, x, y); ov = P.bin(E_ULT, r, x); break; case B_USUBO: r = P.bin(E_SUB, x, y); ov = P.bin(E_ULT, x, y); break;
          case B_SADDO: { r = P.bin(E_ADD, x, y); Expr *t = P.bin(E_AND, P.bin(E_XOR, x, r), P.bin(E_XOR, y, r)); ov = P.bin(E_SLT, t, P.k(0, w)); break; }
          default: { r = P.bin(E_SUB, x, y); Expr *t = P.bin(E_AND, P.bin(E_XOR, x, y), P.bin(E_XOR, x, r)); ov = P.bin(E_SLT, t, P.k(0, w)); } } }
      f.r[ci.dst] = V(r); f.r[ci.dst + 1] = V(ov); f.pc++; return true; }
  }
  return false;
}
struct Atomic { State &s; Atomic(State &st, bool on) : s(st) { s.atomicAcc = on; } ~Atomic() { s.atomicAcc = false; } };
static void step(State &st) {
  Frame &f = st.fr.back(); const CInst &ci = f.f->code[f.pc]; curI = &ci;
  st.insts++; S.insts++;
  switch (ci.op) {
    case I_NOP: f.pc++; return;
    case I_BIN: { Val v = binop(st, ci.sub, get(st, ci.a), get(st, ci.b), ci.w); f.r[ci.dst] = v; f.pc++; return; }
    case I_ICMP: f.r[ci.dst] = icmp(ci.sub, get(st, ci.a), get(st, ci.b), ci.w2); f.pc++; return;
    case I_CAST: { Val a = get(st, ci.a); Val r;
      switch (ci.sub) { case Instruction::ZExt: r = a.e ? V(P.zext(a.e, ci.w)) : C(a.c & mask(ci.w2)); break; case Instruction::SExt: r = a.e ? V(P.sext(a.e, ci.w)) : C((u64)sx(a.c, ci.w2) & mask(ci.w)); break;
        case Instruction::Trunc: r = a.e ? V(P.extract(a.e, 0, ci.w)) : C(a.c & mask(ci.w)); break; case Instruction::PtrToInt: case Instruction::IntToPtr: r = a.e ? V(P.zext(a.e, ci.w)) : C(a.c & mask(ci.w)); break; default: r = a; }
      f.r[ci.dst] = r; f.pc++; return; }
    case I_LOAD: { Atomic at(st, ci.imm2); Val a = get(st, ci.a); if (ci.fields.size() == 1) { Val v = loadMem(st, a, ci.fields[0].w); f.r[ci.dst] = v; } else { a = C(CV(st, a)); for (size_t k = 0; k < ci.fields.size(); k++) { Val v = loadMem(st, C(a.c + ci.fields[k].off), ci.fields[k].w); f.r[ci.dst + k] = v; } } f.pc++; return; }
    case I_STORE: { Atomic at(st, ci.imm2); Val a = get(st, ci.a); if (ci.fields.size() == 1) storeMem(st, a, get(st, ci.args[0]), ci.fields[0].w); else { a = C(CV(st, a)); for (size_t k = 0; k < ci.fields.size(); k++) storeMem(st, C(a.c + ci.fields[k].off), get(st, ci.args[k]), ci.fields[k].w); } f.pc++; return; }
    case I_GEP: { Val b = get(st, ci.a); u64 off = ci.imm; Expr *e = b.e; u64 c = b.c;
      for (auto &ix : ci.idx) { Val v = get(st, ix.first); if (!v.e) off += (u64)sx(v.c, ix.second.second) * ix.second.first; else { Expr *x = P.bin(E_MUL, P.sext(v.e, 64), P.k(ix.second.first, 64)); e = e ? P.bin(E_ADD, e, x) : P.bin(E_ADD, x, P.k(c, 64)); } }
      if (e) f.r[ci.dst] = V(P.bin(E_ADD, e, P.k(off, 64))); else f.r[ci.dst] = C(c + off); f.pc++; return; }
    case I_ALLOCA: { u64 n = CV(st, get(st, ci.a)); u64 sz; if (__builtin_mul_overflow(n, ci.imm, &sz) || sz > (8u << 20)) err(st, "stack-overflow", "stack allocation of " + std::to_string(n) + " elements"); u64 p = newObj(st, K_STACK, sz, false, ci.I->getName().str().empty() ? f.f->name + " local" : f.f->name + ":" + ci.I->getName().str()); st.fr.back().r[ci.dst] = C(p); st.fr.back().pc++; return; }
    case I_JMP: takeEdge(st, ci.edges[0]); return;
    case I_BR: branchOn(st, get(st, ci.a), ci, 0, 1); return;
    case I_SWITCH: { Val v = get(st, ci.a); if (v.e) { if (dependsUndef(st, v.e)) err(st, "uninitialised", "switch depends on uninitialised data");
        for (size_t k = 0; k < ci.cases.size(); k++) if (decide(st, P.bin(E_EQ, v.e, P.k(ci.cases[k], ci.w2)))) { takeEdge(st, ci.edges[k + 1]); return; } takeEdge(st, ci.edges[0]); return; }
      for (size_t k = 0; k < ci.cases.size(); k++) if (ci.cases[k] == v.c) { takeEdge(st, ci.edges[k + 1]); return; } takeEdge(st, ci.edges[0]); return; }
    case I_SELECT: { Val c = get(st, ci.a); for (u32 k = 0; k < ci.n; k++) { Val t = get(st, ci.args[2 * k]), e = get(st, ci.args[2 * k + 1]); f.r[ci.dst + k] = c.e ? V(P.ite(c.e, X(t, ci.fields[k].w), X(e, ci.fields[k].w))) : c.c ? t : e; } f.pc++; return; }
    case I_COPY: { std::vector<Val> t; for (auto &o : ci.args) t.push_back(get(st, o)); for (size_t k = 0; k < t.size(); k++) f.r[ci.dst + k] = t[k]; f.pc++; return; }
    case I_RET: { std::vector<Val> v; for (auto &o : ci.args) v.push_back(get(st, o)); doRet(st, v); return; }
    case I_UNREACH: err(st, "unreachable", "unreachable code reached");
    case I_FBIN: { double x = FP(CV(st, get(st, ci.a)), ci.w), y = FP(CV(st, get(st, ci.b)), ci.w), r = 0; switch (ci.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; } if (ci.w == 32) r = (float)r; f.r[ci.dst] = C(UFP(r, ci.w)); f.pc++; return; }
    case I_FNEG: f.r[ci.dst] = C(UFP(-FP(CV(st, get(st, ci.a)), ci.w2), ci.w2)); f.pc++; return;
    case I_FCMP: { double x = FP(CV(st, get(st, ci.a)), ci.w2), y = FP(CV(st, get(st, ci.b)), ci.w2); bool un = std::isnan(x) || std::isnan(y), r = false;
      switch (ci.sub) { case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; }
      f.r[ci.dst] = C(r); f.pc++; return; }
    case I_FCAST: { u64 a = CV(st, get(st, ci.a)); u64 r = 0; switch (ci.sub) {
        case Instruction::UIToFP: r = UFP((double)a, ci.w); if (ci.w == 32) { float q = (float)a; u32 x; memcpy(&x, &q, 4); r = x; } break; case Instruction::SIToFP: r = UFP((double)sx(a, ci.w2), ci.w); break;
        case Instruction::FPToUI: { double d = FP(a, ci.w2); r = d >= 9223372036854775808.0 ? (u64)d : (u64)(i64)d; r &= mask(ci.w); break; } case Instruction::FPToSI: r = (u64)(i64)FP(a, ci.w2) & mask(ci.w); break;
        case Instruction::FPExt: case Instruction::FPTrunc: r = UFP(FP(a, ci.w2), ci.w); break; default: fatal("fcast"); } f.r[ci.dst] = C(r); f.pc++; return; }
    case I_RMW: { Atomic at(st, true); Val p = C(CV(st, get(st, ci.a))); Val old = loadMem(st, p, ci.w), b = get(st, ci.b), n; switch (ci.sub) { case AtomicRMWInst::Xchg: n = b; break; case AtomicRMWInst::Add: n = binop(st, Instruction::Add, old, b, ci.w); break; case AtomicRMWInst::Sub: n = binop(st, Instruction::Sub, old, b, ci.w); break; case AtomicRMWInst::And: n = binop(st, Instruction::And, old, b, ci.w); break; case AtomicRMWInst::Or: n = binop(st, Instruction::Or, old, b, ci.w); break; default: fatal("atomicrmw"); } storeMem(st, p, n, ci.w); st.fr.back().r[ci.dst] = old; st.fr.back().pc++; return; }
    case I_CMPXCHG: { Atomic at(st, true); Val p = C(CV(st, get(st, ci.a))); Val old = loadMem(st, p, ci.w2); Val eq = icmp(CmpInst::ICMP_EQ, old, get(st, ci.b), ci.w2); bool e = eq.e ? decide(st, eq.e) : eq.c; if (e) storeMem(st, p, get(st, ci.c), ci.w2); st.fr.back().r[ci.dst] = old; st.fr.back().r[ci.dst + 1] = C(e); st.fr.back().pc++; return; }
    case I_CALL: {
      std::vector<Val> a; a.reserve(ci.args.size()); for (auto &o : ci.args) a.push_back(get(st, o));
      if (ci.builtin) { if (callBuiltin(st, ci, a)) return; fatal("builtin"); }
      Function *F = ci.callee;
      if (!F) { u64 p = CV(st, get(st, ci.a)); auto it = fnByAddr.find(p); if (it == fnByAddr.end()) err(st, p < 4096 ? "null-call" : "wild-call", "call through " + describe(st, p)); F = it->second;
        if (F->isDeclaration()) { if (Function *r = M->getFunction("moth_" + F->getName().str())) if (!r->isDeclaration()) F = r; }
        int b = builtinId(F); if (b) { CInst *n = new CInst(ci); n->builtin = b; if (callBuiltin(st, *n, a)) { delete n; return; } fatal("builtin"); } }
      if (F->isDeclaration()) { emit("{\"t\":\"unknown_external\",\"name\":\"" + esc(F->getName().str()) + "\",\"at\":\"" + esc(bt(st)) + "\"}"); incomplete("call to unmodelled external function " + F->getName().str()); throw PathEnd(); }
      { size_t bi = 0; for (size_t k = 0; k < ci.argw.size(); k++) if (ci.argw[k] == 0xff) { u64 sz = ci.cases[bi++], src = CV(st, a[k]); u64 d = newObj(st, K_STACK, sz, false, "byval"); copyMem(st, d, src, sz, true); a[k] = C(d); } }
      enter(st, F, a, &ci, &ci.argw); return; }
    default: { emit("{\"t\":\"unsupported\",\"at\":\"" + esc(locOf(ci.I)) + "\"}"); incomplete("unsupported instruction"); throw PathEnd(); }
  }
}
static void flush(bool last) {
  if (!prof.empty()) { std::vector<std::pair<double, std::string>> v; for (auto &x : prof) v.push_back({x.second.second, x.first + " n=" + std::to_string(x.second.first)}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 15; i++) fprintf(stderr, "%.2f %s\n", v[i].first, v[i].second.c_str()); }
  (void)last; std::string r = "{\"t\":\"stat\",\"queries\":" + std::to_string(S.queries) + ",\"sat\":" + std::to_string(S.sat) + ",\"unsat\":" + std::to_string(S.unsat) + ",\"unknown\":" + std::to_string(S.unknown) + ",\"cache_hits\":" + std::to_string(S.cacheHits) + ",\"branches\":" + std::to_string(S.branches) + ",\"forks\":" + std::to_string(S.forks) + ",\"insts\":" + std::to_string(S.insts) + ",\"completed\":" + std::to_string(S.completed) + ",\"assume_killed\":" + std::to_string(S.assumeKill) + ",\"errors\":" + std::to_string(S.errors) + ",\"dropped\":" + std::to_string(S.dropped) + ",\"asserts\":" + std::to_string(S.asserts) + ",\"solver_s\":" + std::to_string(S.solverTime) + ",\"max_query_s\":" + std::to_string(S.maxQuery) + ",\"vars\":" + std::to_string(P.vars.size()) + ",\"reach\":{";
  bool f = true; for (auto &x : S.reach) { if (!f) r += ","; f = false; r += "\"" + esc(x.first) + "\":" + std::to_string(x.second); }
  r += "},\"incomplete\":{"; f = true; for (auto &x : S.incomplete) { if (!f) r += ","; f = false; r += "\"" + esc(x.first) + "\":" + std::to_string(x.second); }
  r += "},\"functions\":["; f = true; for (auto &x : compiled) if (x.second->calls) { auto *sp = x.first->getSubprogram(); if (!f) r += ","; f = false; r += "\"" + esc((sp ? sp->getFilename().str() : std::string("?")) + ":" + x.second->name) + "\""; }
  emit(r + "]}");
}
static u64 rssPages() { FILE *f = fopen("/proc/self/statm", "r"); u64 a = 0, b = 0; if (f) { if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); } return b; }
static void initGlobals(State &st) {
  u64 na = GBASE, nf = FBASE;
  for (auto &F : *M) { fnAddr[&F] = nf; fnByAddr[nf] = &F; nf += 16; }
  for (auto &G : M->globals()) { gAddr[&G] = na; u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8; na += ((sz + 15) & ~15ULL) + GAP; }
  std::function<void(Obj &, u64, const Constant *)> put = [&](Obj &o, u64 off, const Constant *c) {
    Type *t = c->getType();
    if (c->isNullValue()) return;
    if (isa<UndefValue>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef s = cd->getRawDataValues(); memcpy(&o.c[off], s.data(), s.size()); return; }
    if (auto *s = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) put(o, off + l->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (auto *a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) put(o, off + i * sz, c->getAggregateElement(i)); return; }
    Val v = constVal(c); memcpy(&o.c[off], &v.c, (bw(t) + 7) / 8); };
  for (auto &G : M->globals()) {
    Obj *o = new Obj; o->kind = K_GLOBAL; o->base = gAddr[&G]; o->size = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8; o->name = G.getName().str(); o->c.assign(o->size, 0); o->ro = G.isConstant();
    if (G.hasInitializer()) put(*o, 0, G.getInitializer());
    st.g.v.push_back(ObjP(o)); }
}
static State *cur = nullptr;
static void maybeSplit() {
  if (O.jobs <= 1 || work.size() < 2) return;
  int a = SH->active.load(); if (a >= O.jobs) return;
  if (!SH->active.compare_exchange_strong(a, a + 1)) return;
  SH->nforks++;
  pid_t p = fork();
  if (p < 0) { SH->active--; return; }
  size_t half = (work.size() + 1) / 2;
  if (p == 0) { // child: oldest half
    S = Stats(); for (auto &x : compiled) x.second->calls = 0; if (cur) cur = nullptr;
    while (work.size() > half) work.pop_back();
    throw 42; }
  for (size_t i = 0; i < half; i++) work.pop_front(); // leaked on purpose (memory is shared copy-on-write)
}
static int runAll() {
  State *s0 = new State; initGlobals(*s0);
  Function *F = M->getFunction(O.entry); if (!F || F->isDeclaration()) fatal("no entry " + O.entry);
  enter(*s0, F, {}, nullptr, nullptr); work.push_back(s0);
  u64 tick = 0; bool stop = false;
  while (!work.empty() && !stop) {
    State *st = work.back(); work.pop_back(); cur = st;
    try {
      try {
        for (;;) {
          if ((++tick & 1023) == 0) {
            if (now() - T0 > O.time) { incomplete("time limit"); S.dropped += work.size() + 1; stop = true; break; }
            if ((int)SH->errors >= O.maxErrors) { incomplete("error limit"); S.dropped += work.size() + 1; stop = true; break; }
            if ((tick & 0xfffff) == 0 && rssPages() > (3ULL << 30) / 4096) { incomplete("memory limit"); S.dropped += work.size() + 1; stop = true; break; }
            maybeSplit();
          }
          if (st->insts > O.maxInsts) { err(*st, "hang", "path executed more than " + std::to_string(O.maxInsts) + " instructions"); }
          step(*st);
        }
      } catch (PathEnd &) { if (st->fr.empty()) endPath(*st, "return"); }
      catch (Done &) { endPath(*st, "stop"); }
      delete st; cur = nullptr;
      maybeSplit();
    } catch (int) { continue; }
  }
  flush(true);
  SH->active--;
  int ws; while (wait(&ws) > 0) if (!WIFEXITED(ws) || WEXITSTATUS(ws)) emit("{\"t\":\"fatal\",\"msg\":\"a worker process died\"}");
  return 0;
}
