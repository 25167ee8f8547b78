// Path exploration.
struct PathEnd {};
struct Restart {};  // re-execute the current instruction after forking

static std::deque<State *> work;
static State *st;
static Frame *fr;
static uint64_t instrLocal = 0;
static bool wantSplit = false;
static double workerStart;
static const Inst *curInst = nullptr;

static void refresh() { fr = &st->top(); }

static string where() {
  string s;
  for (int i = (int)st->frames.size() - 1, n = 0; i >= 0 && n < 6; i--, n++) {
    Frame &f = *st->frames[i];
    uint32_t pc = f.pc ? f.pc - 1 : 0;
    const llvm::Instruction *I = pc < f.f->code.size() ? f.f->code[pc].I : nullptr;
    if (n) s += " <- ";
    s += f.f->name;
    if (I && I->getDebugLoc()) s += ":" + std::to_string(I->getDebugLoc().getLine());
  }
  return s;
}
static void unsupported(const string &m) {
  string msg = m + " at " + where();
  shLock();
  sh->errors++; sh->incomplete = 1;
  if (!sh->firstError[0]) snprintf(sh->firstError, sizeof sh->firstError, "%s", msg.c_str());
  shUnlock();
  throw PathEnd();
}

static uint64_t evalE(Expr *e) { return P.eval(e, *st->model); }

static void slice(State *s, Expr *q, vector<Expr *> &out) {
  // constraints connected to q through shared symbols
  static vector<uint8_t> mark;
  mark.assign(P.syms.size(), 0);
  for (uint32_t x : *q->syms) mark[x] = 1;
  vector<uint8_t> taken(s->cons.size(), 0);
  bool change = true;
  while (change) {
    change = false;
    for (size_t i = 0; i < s->cons.size(); i++) {
      if (taken[i]) continue;
      bool hit = false;
      for (uint32_t x : *s->cons[i]->syms) if (mark[x]) { hit = true; break; }
      if (!hit) continue;
      taken[i] = 1; change = true;
      for (uint32_t x : *s->cons[i]->syms) mark[x] = 1;
    }
  }
  for (size_t i = 0; i < s->cons.size(); i++) if (taken[i]) out.push_back(s->cons[i]);
}
// Is q satisfiable together with the path condition? Gives a full model.
static int feasible(State *s, Expr *q, Model *out) {
  if (q->k == K_CONST) { if (out) *out = s->model; return q->c != 0; }
  if (P.eval(q, *s->model)) { if (out) *out = s->model; return 1; }
  vector<Expr *> cs;
  slice(s, q, cs);
  cs.push_back(q);
  vector<std::pair<uint32_t, uint64_t>> m;
  int r = S.check(cs, m);
  if (r == 1 && out) {
    auto n = std::make_shared<vector<uint64_t>>(*s->model);
    n->resize(std::max(n->size(), P.syms.size()), 0);
    for (auto &kv : m) (*n)[kv.first] = kv.second;
    *out = n;
  }
  return r;
}
static void addCon(State *s, Expr *c) {
  if (c->k == K_CONST) return;
  if (c->k == K_AND && c->w == 1) { addCon(s, c->a); addCon(s, c->b); return; }
  for (auto *x : s->cons) if (x == c) return;
  s->cons.push_back(c);
  if (s->cons.size() > sh->maxConstraints) sh->maxConstraints = s->cons.size();
}
// Forks the current state; the sibling is queued and returned.
static State *forkState() {
  State *n = new State(*st);
  work.push_back(n);
  SHADD(forks, 1);
  static bool prof = getenv("SYMX_FORKS");
  if (prof) fprintf(stderr, "fork %s\n", where().c_str());
  fr = nullptr;
  refresh();
  if (sh->active < (int)optJobs && (work.size() >= 4 || now() - workerStart > 0.04)) wantSplit = true;
  return n;
}
// Splits off the states where cond is false; they re-execute this instruction.
static void requireFork(Expr *cond) {
  if (cond->k == K_CONST) { if (!cond->c) fatal("requireFork"); return; }
  Model m;
  Expr *neg = P.notE(cond);
  int r = feasible(st, neg, &m);
  if (r == 1) {
    State *n = forkState();
    n->model = m;
    addCon(n, neg);
    n->top().pc--;
    addCon(st, cond);
  }
}
static uint64_t concretize(Val v) {
  if (!v.e) return v.c;
  uint64_t c = evalE(v.e);
  Expr *eq = P.eq(v.e, P.con(c, v.e->w));
  requireFork(eq);
  return c;
}
static bool decideNoFork(Expr *c) { return evalE(c); }

static string esc(const string &s) {
  string r;
  for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) r += ' '; else r += ch; }
  return r;
}
static void writeCase(const string &path, const Model &model, const string &kind, const string &msg) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) return;
  fprintf(f, "kind %s\nmessage %s\nwhere %s\nentry %s\n", kind.c_str(), msg.c_str(), where().c_str(), optEntry.c_str());
  for (uint32_t s : *st->symOrder)
    fprintf(f, "sym %s %u %llu\n", P.syms[s].name.c_str(), P.syms[s].w, (unsigned long long)(s < model->size() ? (*model)[s] : 0));
  for (auto &o : st->obs)
    fprintf(f, "obs %s %llu\n", o.first.c_str(), (unsigned long long)(o.second.e ? P.eval(o.second.e, *model) : o.second.c));
  fclose(f);
}
static void violation(const string &kind, const string &msg, Model m = nullptr) {
  if (!m) m = st->model;
  bool known = false;
  for (auto &k : optKnown) if (msg.find(k) != string::npos) known = true;
  shLock();
  bool dup = false;
  for (int i = 0; i < sh->nViol; i++) if (!strncmp(sh->viol[i].msg, (kind + ": " + msg).c_str(), sizeof sh->viol[i].msg - 1)) dup = true;
  int n = -1;
  if (!dup && sh->nViol < 64) {
    n = sh->nViol++;
    snprintf(sh->viol[n].msg, sizeof sh->viol[n].msg, "%s: %s", kind.c_str(), msg.c_str());
    snprintf(sh->viol[n].file, sizeof sh->viol[n].file, "%s/violation-%d.txt", optOut.c_str(), n);
  }
  if (known) sh->knownHits++;
  else { sh->violations++; if (optStop) sh->stop = 1; }
  shUnlock();
  if (n >= 0) writeCase(sh->viol[n].file, m, kind, msg);
}

// ------------------------------------------------------------ memory access
static void memFault(const string &what) {
  violation("memory", what + " at " + where());
  throw PathEnd();
}
static string hex(uint64_t v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

struct Loc { uint32_t id; uint64_t off; Expr *offE; };
// Only the start of a large allocation is backed by memory.
static void beyondCap(Obj *o, uint64_t end) {
  if (evalE(P.ule(P.con(end, 64), o->symSize))) unsupported("access deep inside a large allocation");
}
static Loc resolve(Val p, uint64_t n, bool write) {
  if (!p.e) {
    uint32_t id = p.c >> 32;
    int64_t off = (int64_t)(p.c & 0xffffffffu) - (int64_t)OFF0;
    Obj *o = st->get(id);
    if (!o) memFault(string(write ? "write" : "read") + (p.c < 0x10000 ? " through null pointer" : " of freed or unallocated memory ") + hex(p.c));
    if (off >= 0 && o->symSize && (uint64_t)off + n > o->size) beyondCap(o, off + n);
    if (off < 0 || (uint64_t)off + n > o->size) memFault(string("out of bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(off) + " of an object of " + std::to_string(o->size) + " bytes");
    if (o->symSize) {
      SHADD(memChecks, 1);
      Expr *in = P.ule(P.con(off + n, 64), o->symSize);
      Model m;
      if (feasible(st, P.notE(in), &m) == 1) { violation("memory", string("out of bounds ") + (write ? "write" : "read") + " past a variable-sized allocation at " + where(), m); throw PathEnd(); }
    }
    if (write && (o->flags & OF_CONST)) memFault("write to constant memory");
    return {id, (uint64_t)off, nullptr};
  }
  uint64_t a0 = evalE(p.e);
  uint32_t id = a0 >> 32;
  Obj *o = st->get(id);
  if (!o) memFault(string(write ? "write" : "read") + " through invalid symbolic pointer " + hex(a0));
  int64_t off0 = (int64_t)(a0 & 0xffffffffu) - (int64_t)OFF0;
  if (off0 >= 0 && o->symSize && (uint64_t)off0 + n > o->size) beyondCap(o, off0 + n);
  if (off0 < 0 || (uint64_t)off0 + n > o->size) memFault(string("out of bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(off0) + " of an object of " + std::to_string(o->size) + " bytes");
  SHADD(memChecks, 1);
  Expr *lo = P.con(mkAddr(id), 64), *hi = P.con(mkAddr(id) + o->size - n, 64);
  Expr *in = P.bin(K_AND, P.ule(lo, p.e), P.ule(p.e, hi));
  requireFork(in);
  Expr *off = P.bin(K_SUB, p.e, lo);
  if (o->symSize) {
    Model m;
    Expr *ok = P.ule(P.bin(K_ADD, off, P.con(n, 64)), o->symSize);
    if (feasible(st, P.notE(ok), &m) == 1) { violation("memory", "out of bounds access past a variable-sized allocation at " + where(), m); throw PathEnd(); }
  }
  if (write && (o->flags & OF_CONST)) memFault("write to constant memory");
  if (off->k == K_CONST) return {id, off->c, nullptr};
  // a single feasible offset?
  return {id, (uint64_t)off0, off};
}
static Val loadAt(Obj *o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool sym = false;
  if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { sym = true; break; }
  if (!sym) {
    uint64_t v = 0;
    memcpy(&v, o->data + off, n);
    return V(w < 64 ? v & maskw(w) : v);
  }
  Expr *acc = nullptr;
  for (unsigned i = 0; i < n; i++) {
    Expr *b = o->sym[off + i] ? o->sym[off + i] : P.con(o->data[off + i], 8);
    acc = acc ? P.concat(b, acc) : b;
  }
  if (acc->w != w) acc = P.extract(acc, 0, w);
  return VE(acc);
}
static void storeAt(Obj *o, uint64_t off, unsigned w, Val v) {
  unsigned n = (w + 7) / 8;
  if (!v.e) {
    uint64_t c = v.c & maskw(w);
    memcpy(o->data + off, &c, n);
    if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
    return;
  }
  if (!o->sym) o->sym = (Expr **)calloc(o->size, sizeof(Expr *));
  Expr *e = v.e;
  if (e->w != w) fatal("store width");
  if (e->w < n * 8) e = P.zext(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    Expr *b = P.extract(e, 8 * i, 8);
    if (b->k == K_CONST) { o->data[off + i] = b->c; o->sym[off + i] = nullptr; }
    else o->sym[off + i] = b;
  }
}
static Val byteAt(Obj *o, uint64_t off) {
  if (o->sym && o->sym[off]) return Val{0, o->sym[off]};
  return V(o->data[off]);
}
static Val memLoad(Val p, unsigned w) {
  unsigned n = (w + 7) / 8;
  Loc l = resolve(p, n, false);
  Obj *o = st->get(l.id);
  if (!l.offE) return loadAt(o, l.off, w);
  uint64_t cands = o->size - n + 1;
  if (n == 8 || cands > 1024) {
    uint64_t off = concretize(VE(l.offE));
    return loadAt(st->get(l.id), off, w);
  }
  Expr *acc = nullptr;
  for (uint64_t k = cands; k-- > 0;) {
    Val v = loadAt(o, k, w);
    Expr *e = X(v, w);
    acc = acc ? P.ite(P.eq(l.offE, P.con(k, 64)), e, acc) : e;
  }
  return VE(acc);
}
static void memStore(Val p, unsigned w, Val v) {
  unsigned n = (w + 7) / 8;
  Loc l = resolve(p, n, true);
  if (!l.offE) { storeAt(st->getW(l.id), l.off, w, v); return; }
  Obj *o = st->get(l.id);
  if (o->size > 256 || n == 8) {
    uint64_t off = concretize(VE(l.offE));
    storeAt(st->getW(l.id), off, w, v);
    return;
  }
  uint64_t cands = o->size - n + 1;
  o = st->getW(l.id);
  Expr *ve = X(v, w);
  for (uint64_t k = 0; k < cands; k++) {
    Val old = loadAt(o, k, w);
    storeAt(o, k, w, VE(P.ite(P.eq(l.offE, P.con(k, 64)), ve, X(old, w))));
  }
}
static void memCopy(Val dst, Val src, uint64_t n, bool = false) {
  if (!n) return;
  uint64_t d = concretize(dst), s = concretize(src);
  Loc ls = resolve(V(s), n, false), ld = resolve(V(d), n, true);
  Obj *od = st->getW(ld.id);
  Obj *os = st->get(ls.id);
  memmove(od->data + ld.off, os->data + ls.off, n);
  if (os->sym) {
    if (!od->sym) od->sym = (Expr **)calloc(od->size, sizeof(Expr *));
    memmove(od->sym + ld.off, os->sym + ls.off, n * sizeof(Expr *));
  } else if (od->sym) memset(od->sym + ld.off, 0, n * sizeof(Expr *));
}
static void memSet(Val dst, Val b, uint64_t n) {
  if (!n) return;
  uint64_t d = concretize(dst);
  Loc l = resolve(V(d), n, true);
  Obj *o = st->getW(l.id);
  if (!b.e) {
    memset(o->data + l.off, (int)b.c, n);
    if (o->sym) memset(o->sym + l.off, 0, n * sizeof(Expr *));
  } else for (uint64_t i = 0; i < n; i++) storeAt(o, l.off + i, 8, b);
}
static string readStr(Val p) {
  uint64_t a = concretize(p);
  string s;
  for (;;) {
    Loc l = resolve(V(a), 1, false);
    uint64_t c = concretize(byteAt(st->get(l.id), l.off));
    if (!c) return s;
    s += (char)c;
    a++;
  }
}

// ------------------------------------------------------------ control
static inline Val R(int32_t o) { return o >= 0 ? fr->regs[o] : constPool[-o - 1]; }
static void jump(Frame *f, Edge *e) {
  sh->blockHit[e->block] = 1;
  size_t n = e->moves.size();
  if (n == 1) {
    int32_t s = e->moves[0].second;
    f->regs[e->moves[0].first] = s >= 0 ? f->regs[s] : constPool[-s - 1];
  } else if (n) {
    Val tmp[64];
    if (n > 64) fatal("too many phis");
    for (size_t i = 0; i < n; i++) { int32_t s = e->moves[i].second; tmp[i] = s >= 0 ? f->regs[s] : constPool[-s - 1]; }
    for (size_t i = 0; i < n; i++) f->regs[e->moves[i].first] = tmp[i];
  }
  f->pc = e->target;
}
static Frame *pushFrame(Func *f, int32_t retDst) {
  if (!f->decoded) decode(f);
  auto n = std::make_shared<Frame>();
  n->f = f; n->pc = 0; n->retDst = retDst;
  n->regs.resize(f->nslots);
  st->frames.push_back(n);
  if (st->frames.size() > sh->maxFrames) sh->maxFrames = st->frames.size();
  if (st->frames.size() > 2000) { violation("hang", "call depth above 2000 at " + where()); throw PathEnd(); }
  sh->funcHit[f->idx] = 1;
  sh->blockHit[f->entryBlock] = 1;
  fr = n.get();
  return fr;
}
static void dropFrame() {
  Frame *f = st->frames.back().get();
  for (uint32_t a : f->allocas) st->del(a);
  if (f->varargs) st->del(f->varargs);
  st->frames.pop_back();
}

static uint32_t freshSym(const string &base, unsigned w, Expr **out) {
  unsigned k = st->symCount[base]++;
  Expr *e = P.sym(base + "#" + std::to_string(k), w);
  auto n = std::make_shared<vector<uint32_t>>(*st->symOrder);
  n->push_back((uint32_t)e->c);
  st->symOrder = n;
  *out = e;
  return e->c;
}
static void doAssert(Val c, const string &msg, unsigned w) {
  SHADD(asserts, 1);
  if (!c.e) {
    if (!c.c) { violation("assert", msg); throw PathEnd(); }
    return;
  }
  SHADD(assertsSolver, 1);
  Expr *ok = P.notE(P.eq(c.e, P.con(0, w)));
  Expr *neg = P.notE(ok);
  Model m;
  int r = feasible(st, neg, &m);
  if (r == 1) {
    Expr *q = ok;
    violation("assert", msg, m);
    if (!P.eval(q, *st->model)) {
      Model m2;
      if (feasible(st, q, &m2) != 1) throw PathEnd();
      st->model = m2;
    }
    addCon(st, q);
  }
}
static Obj *progHeapObj(uint64_t size) {
  Obj *o = newObj(size, OF_HEAP | OF_PROGHEAP, 0xA5);
  o->owner = st->cur;
  return o;
}
static void switchCoro(unsigned to) {
  if (to == st->cur) return;
  if (st->coros.empty()) st->coros.push_back(std::make_shared<Coro>());
  auto &c = st->coros[st->cur];
  auto &t = st->coros.at(to);
  c->frames.swap(st->frames);
  c->globals.clear();
  for (uint32_t id : progGlobals) { Obj *o = st->get(id); o->refs++; c->globals.push_back(o); }
  for (size_t i = 0; i < progGlobals.size(); i++) {
    Obj *o = t->globals.empty() ? progGlobalInit[i] : t->globals[i];
    o->refs++;
    st->put(progGlobals[i], o);
  }
  for (auto *g : t->globals) objUnref(g);
  t->globals.clear();
  st->frames.swap(t->frames);
  st->cur = to;
  fr = nullptr;
  if (!st->frames.empty()) refresh();
}
static std::map<std::pair<string, int>, std::pair<int, regex_t *>> regCache;
static vector<regex_t *> regById;
static vector<std::pair<string, int>> regErr;

static void doReturn(const vector<Val> &vals) {
  // returns from the top frame
  int32_t dst = fr->retDst;
  bool isTry = fr->isTry;
  dropFrame();
  if (st->frames.empty()) {
    if (st->cur != 0) {
      st->coros[st->cur]->done = true;
      switchCoro(0);
      return;
    }
    throw PathEnd();
  }
  refresh();
  if (isTry) { if (dst >= 0) fr->regs[dst] = V(0); }
  else if (dst >= 0) for (size_t i = 0; i < vals.size(); i++) fr->regs[dst + i] = vals[i];
}
static bool pathCompleted;

static void callBuiltin(CallInfo *ci, const Inst &in) {
  auto A = [&](unsigned i) { return R(ci->args.at(i)); };
  auto W = [&](unsigned i) { return ci->widths.at(i); };
  auto ret = [&](Val v) { if (in.dst >= 0) fr->regs[in.dst] = v; };
  auto conc = [&](unsigned i) { uint64_t v = concretize(A(i)); int32_t s = ci->args[i]; if (s >= 0) fr->regs[s] = V(v); return v; };
  switch (ci->builtin) {
  case B_INT: {  // uint64_t sx_int(int bits, const char *name)
    unsigned bits = conc(0);
    string n = readStr(A(1));
    Expr *e; freshSym(n, bits, &e);
    ret(VE(P.zext(e, 64)));
    break;
  }
  case B_SYM: {  // void sx_sym(void *p, size_t n, const char *name)
    uint64_t p = conc(0), n = conc(1);
    string nm = readStr(A(2));
    if (!n) break;
    Loc l = resolve(V(p), n, true);
    Obj *o = st->getW(l.id);
    for (uint64_t i = 0; i < n; i++) { Expr *e; freshSym(nm, 8, &e); storeAt(o, l.off + i, 8, VE(e)); }
    break;
  }
  case B_CHOOSE: {  // unsigned sx_choose(unsigned n, const char *name)
    uint64_t n = conc(0);
    string nm = readStr(A(1));
    if (n == 0) fatal("sx_choose(0)");
    Expr *e; uint32_t si = freshSym(nm, 32, &e);
    if (n > 1) for (uint64_t k = n; k-- > 1;) {
      State *s = forkState();
      auto m = std::make_shared<vector<uint64_t>>(*s->model);
      m->resize(std::max(m->size(), P.syms.size()), 0);
      (*m)[si] = k;
      s->model = m;
      addCon(s, P.eq(e, P.con(k, 32)));
      if (in.dst >= 0) s->top().regs[in.dst] = V(k);
    }
    auto m = std::make_shared<vector<uint64_t>>(*st->model);
    m->resize(std::max(m->size(), P.syms.size()), 0);
    (*m)[si] = 0;
    st->model = m;
    addCon(st, P.eq(e, P.con(0, 32)));
    ret(V(0));
    break;
  }
  case B_ASSUME: {
    Val c = A(0);
    if (!c.e) { if (!c.c) { SHADD(assumed, 1); throw PathEnd(); } break; }
    Expr *ok = P.notE(P.eq(c.e, P.con(0, W(0))));
    if (!evalE(ok)) {
      Model m;
      if (feasible(st, ok, &m) != 1) { SHADD(assumed, 1); throw PathEnd(); }
      st->model = m;
    }
    addCon(st, ok);
    break;
  }
  case B_ASSERT: doAssert(A(0), readStr(A(1)), W(0)); refresh(); break;
  case B_MUST: {  // asserts and continues on both... same as assert
    doAssert(A(0), readStr(A(1)), W(0)); refresh(); break;
  }
  case B_FAIL: { string m = readStr(A(0)); violation("assert", m); throw PathEnd(); }
  case B_COVER: {
    string m = readStr(A(0));
    int i, n = sh->nCover;
    for (i = 0; i < n; i++) if (m == sh->cover[i].name) break;
    if (i == n) {
      shLock();
      for (i = 0; i < sh->nCover; i++) if (m == sh->cover[i].name) break;
      if (i == sh->nCover && i < 512) { snprintf(sh->cover[i].name, 96, "%s", m.c_str()); sh->nCover++; }
      shUnlock();
    }
    __sync_fetch_and_add(&sh->cover[i].hits, 1);
    break;
  }
  case B_CONC: ret(V(concretize(A(0)))); break;
  case B_DEPTH: ret(V(st->frames.size())); break;
  case B_ISSYM: ret(V(A(0).e != nullptr)); break;
  case B_ITE: {
    Val c = A(0);
    if (!c.e) { ret(c.c ? A(1) : A(2)); break; }
    ret(VE(P.ite(P.notE(P.eq(c.e, P.con(0, W(0)))), X(A(1), 64), X(A(2), 64))));
    break;
  }
  case B_TRY: {
    uint64_t f = conc(0);
    Val arg = A(1);
    auto it = funcById.find(f >> 32);
    if (it == funcById.end()) memFault("call through bad function pointer");
    Func *fn = funcs.at(it->second);
    int32_t dst = in.dst;
    pushFrame(fn, dst);
    fr->isTry = true;
    if (fn->argWidths.size()) fr->regs[0] = arg;
    break;
  }
  case B_THROW: {
    Val code = A(0);
    for (;;) {
      if (st->frames.empty()) unsupported("sx_throw without sx_try");
      bool isTry = st->frames.back()->isTry;
      int32_t dst = st->frames.back()->retDst;
      dropFrame();
      if (isTry) { refresh(); if (dst >= 0) fr->regs[dst] = code; break; }
    }
    break;
  }
  case B_MALLOC: {
    uint64_t n = conc(0);
    if (n > (1u << 28)) fatal("sx_malloc too large");
    ret(V(mkAddr(st->add(newObj(n, OF_HEAP, 0)))));
    break;
  }
  case B_HEAP_ALLOC: {
    Val v = A(0);
    if (v.e) {
      const uint64_t LIM = 1ull << 31;
      Expr *small = P.ule(v.e, P.con(LIM, 64));
      if (!evalE(small)) {
        requireFork(P.notE(small));
        ret(V(0));
        break;
      }
      requireFork(small);
      // few values: enumerate; otherwise keep the size symbolic
      uint64_t c = evalE(v.e);
      if (feasible(st, P.notE(P.eq(v.e, P.con(c, 64))), nullptr) == 0) v = V(c);
      else {
        uint64_t cap = 1 << 16;
        Model m;
        Expr *q = P.ult(P.con(4096, 64), v.e);
        if (feasible(st, q, &m) == 0) cap = 4096;
        Obj *o = progHeapObj(cap);
        o->symSize = v.e;
        ret(V(mkAddr(st->add(o))));
        break;
      }
    }
    if (v.c > (1ull << 31)) { ret(V(0)); break; }
    if (v.c > (1u << 22)) {
      Obj *o = progHeapObj(1 << 16);
      o->symSize = P.con(v.c, 64);
      ret(V(mkAddr(st->add(o))));
      break;
    }
    ret(V(mkAddr(st->add(progHeapObj(v.c)))));
    break;
  }
  case B_FREE: case B_HEAP_FREE: {
    uint64_t p = conc(0);
    if (!p) break;
    Obj *o = st->get(p >> 32);
    if (!o) memFault("double free or free of invalid pointer");
    if (!(o->flags & OF_HEAP) || (p & 0xffffffffu) != OFF0) memFault("free of a pointer not returned by malloc");
    st->del(p >> 32);
    break;
  }
  case B_HEAP_SIZE: {
    uint64_t p = conc(0);
    Obj *o = st->get(p >> 32);
    if (!o || !(o->flags & OF_HEAP) || (p & 0xffffffffu) != OFF0) memFault("realloc of invalid pointer");
    ret(o->symSize ? VE(o->symSize) : V(o->size));
    break;
  }
  case B_RESET:
    for (size_t i = 0; i < progGlobals.size(); i++) { progGlobalInit[i]->refs++; st->put(progGlobals[i], progGlobalInit[i]); }
    break;
  case B_RELEASE:
    for (uint32_t ci2 = 0; ci2 < st->tab.size(); ci2++) {
      if (!st->tab[ci2]) continue;
      for (unsigned k = 0; k < CHN; k++) {
        if (!st->tab[ci2]) break;
        Obj *o = st->tab[ci2]->o[k];
        if (o && (o->flags & OF_PROGHEAP) && o->owner == st->cur) st->del((ci2 << CHB) + k);
      }
    }
    break;
  case B_CO_NEW: {
    uint64_t f = conc(0);
    Val arg = A(1);
    auto it = funcById.find(f >> 32);
    if (it == funcById.end()) memFault("bad coroutine function");
    if (st->coros.empty()) st->coros.push_back(std::make_shared<Coro>());
    auto c = std::make_shared<Coro>();
    auto n = std::make_shared<Frame>();
    Func *fn = funcs.at(it->second);
    if (!fn->decoded) decode(fn);
    n->f = fn; n->regs.resize(fn->nslots);
    if (fn->argWidths.size()) n->regs[0] = arg;
    c->frames.push_back(n);
    st->coros.push_back(c);
    SHADD(procs, 1);
    ret(V(st->coros.size() - 1));
    break;
  }
  case B_CO_SWITCH: switchCoro(conc(0)); break;
  case B_CO_DONE: ret(V(st->coros.at(conc(0))->done)); break;
  case B_CO_CUR: ret(V(st->cur)); break;
  case B_OBS: st->obs.push_back({readStr(A(0)), A(1)}); break;
  case B_PUTS: if (optTrace) fprintf(stderr, "[%d] %s\n", getpid(), readStr(A(0)).c_str()); break;
  case B_REGCOMP: {
    string s = readStr(A(0));
    int fl = (int)conc(1);
    auto &e = regCache[{s, fl}];
    if (!e.second) {
      e.second = new regex_t;
      int r = regcomp(e.second, s.c_str(), fl);
      regById.push_back(e.second);
      if (r) e.first = -r; else e.first = regById.size();
    }
    ret(V((uint32_t)e.first));
    break;
  }
  case B_REGEXEC: {
    uint64_t id = conc(0);
    string s = readStr(A(1));
    int fl = (int)conc(2);
    if (id == 0 || id > regById.size()) { memFault("regexec with an uncompiled expression"); }
    ret(V((uint32_t)regexec(regById[id - 1], s.c_str(), 0, nullptr, fl)));
    break;
  }
  case B_REGERROR: {
    int code = (int)conc(0);
    uint64_t p = conc(1), n = conc(2);
    char buf[256];
    size_t r = regerror(code, nullptr, buf, sizeof buf);
    size_t k = strlen(buf) + 1;
    if (n) { if (k > n) { k = n; } Loc l = resolve(V(p), k, true); Obj *o = st->getW(l.id); for (size_t i = 0; i < k; i++) storeAt(o, l.off + i, 8, V(i + 1 == k ? 0 : (uint8_t)buf[i])); }
    ret(V(r));
    break;
  }
  case B_FMT_DOUBLE: {  // int sx_fmt_double(char *buf, int cap, int prec, double d)
    uint64_t p = conc(0); int cap = conc(1), prec = (int)conc(2); uint64_t bits = conc(3);
    double d; memcpy(&d, &bits, 8);
    char buf[512];
    int r = snprintf(buf, sizeof buf, "%.*f", prec, d);
    if (r >= cap) r = cap - 1;
    Loc l = resolve(V(p), r + 1, true); Obj *o = st->getW(l.id);
    for (int i = 0; i < r; i++) storeAt(o, l.off + i, 8, V((uint8_t)buf[i]));
    storeAt(o, l.off + r, 8, V(0));
    ret(V(r));
    break;
  }
  case B_MEMCPY: case B_MEMMOVE: { Val d = A(0); uint64_t n = conc(2); memCopy(d, A(1), n); ret(d); break; }
  case B_MEMSET: {
    Val d = A(0); uint64_t n = conc(2);
    Val b = A(1);
    if (b.e) b = VE(P.extract(b.e, 0, 8)); else b.c &= 0xff;
    memSet(d, b, n); ret(d); break;
  }
  case B_MEMCMP: case B_BCMP: {
    uint64_t a = conc(0), b = conc(1), n = conc(2);
    if (!n) { ret(V(0)); break; }
    Loc la = resolve(V(a), n, false), lb = resolve(V(b), n, false);
    Obj *oa = st->get(la.id), *ob = st->get(lb.id);
    bool anySym = oa->sym || ob->sym;
    if (!anySym) {
      int r = memcmp(oa->data + la.off, ob->data + lb.off, n);
      ret(V((uint32_t)(r < 0 ? -1 : r > 0)));
      break;
    }
    Expr *acc = P.con(0, 32);
    for (uint64_t i = n; i-- > 0;) {
      Expr *x = X(byteAt(oa, la.off + i), 8), *y = X(byteAt(ob, lb.off + i), 8);
      Expr *r = P.ite(P.ult(x, y), P.con(~0u, 32), P.con(1, 32));
      acc = P.ite(P.eq(x, y), acc, r);
    }
    ret(VE(acc));
    break;
  }
  case B_OBJ_OK: {
    uint64_t p = conc(0), n = conc(1);
    Obj *o = st->get(p >> 32);
    int64_t off = (int64_t)(p & 0xffffffffu) - (int64_t)OFF0;
    ret(V(o && off >= 0 && off + n <= o->size));
    break;
  }
  default: fatal("builtin");
  }
}

static double asD(uint64_t c, unsigned w) {
  if (w == 32) { float f; uint32_t u = c; memcpy(&f, &u, 4); return f; }
  double d; memcpy(&d, &c, 8); return d;
}
static uint64_t fromD(double d, unsigned w) {
  if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return u; }
  uint64_t c; memcpy(&c, &d, 8); return c;
}

static void intrin(const Inst &in) {
  auto &a = *(vector<int32_t> *)in.p;
  auto conc = [&](int32_t s) { uint64_t v = concretize(R(s)); if (s >= 0) fr->regs[s] = V(v); return v; };
  switch (in.sub) {
  case I_NOP: break;
  case I_MEMCPY: { uint64_t n = conc(a[2]); memCopy(R(a[0]), R(a[1]), n); break; }
  case I_MEMSET: { uint64_t n = conc(a[2]); memSet(R(a[0]), R(a[1]), n); break; }
  case I_VASTART: {
    Val p = R(a[0]);
    uint64_t b = concretize(p);
    memStore(V(b), 32, V(48));
    memStore(V(b + 4), 32, V(304));
    memStore(V(b + 8), 64, V(fr->varargs ? mkAddr(fr->varargs) : 0));
    memStore(V(b + 16), 64, V(0));
    break;
  }
  case I_VACOPY: memCopy(R(a[0]), R(a[1]), 24); break;
  case I_OVF: {
    Val x = R(a[0]), y = R(a[1]);
    unsigned w = in.w2;
    if (!x.e && !y.e) {
      uint64_t r; bool o;
      __int128 sx = sext64(x.c, w), sy = sext64(y.c, w), sr;
      unsigned __int128 ur;
      switch (in.imm) {
      case 0: ur = (unsigned __int128)x.c * y.c; r = (uint64_t)ur & maskw(w); o = ur > maskw(w); break;
      case 1: ur = (unsigned __int128)x.c + y.c; r = (uint64_t)ur & maskw(w); o = ur > maskw(w); break;
      case 2: r = (x.c - y.c) & maskw(w); o = x.c < y.c; break;
      default:
        sr = in.imm == 3 ? sx * sy : in.imm == 4 ? sx + sy : sx - sy;
        r = (uint64_t)sr & maskw(w); o = sr != (__int128)sext64(r, w);
      }
      fr->regs[in.dst] = V(r); fr->regs[in.dst + 1] = V(o);
      break;
    }
    Expr *X1 = X(x, w), *Y1 = X(y, w), *r, *o;
    Expr *z = P.con(0, w);
    switch (in.imm) {
    case 0: r = P.bin(K_MUL, X1, Y1); o = P.bin(K_UMULO, X1, Y1); break;
    case 1: r = P.bin(K_ADD, X1, Y1); o = P.ult(r, X1); break;
    case 2: r = P.bin(K_SUB, X1, Y1); o = P.ult(X1, Y1); break;
    case 4: r = P.bin(K_ADD, X1, Y1); o = P.bin(K_AND, P.eq(P.cmp(K_SLT, X1, z), P.cmp(K_SLT, Y1, z)), P.notE(P.eq(P.cmp(K_SLT, X1, z), P.cmp(K_SLT, r, z)))); break;
    case 5: r = P.bin(K_SUB, X1, Y1); o = P.bin(K_AND, P.notE(P.eq(P.cmp(K_SLT, X1, z), P.cmp(K_SLT, Y1, z))), P.notE(P.eq(P.cmp(K_SLT, X1, z), P.cmp(K_SLT, r, z)))); break;
    default: unsupported("smul overflow"); return;
    }
    fr->regs[in.dst] = VE(r); fr->regs[in.dst + 1] = VE(o);
    break;
  }
  case I_MINMAX: {
    Val x = R(a[0]), y = R(a[1]);
    Kind k = in.imm < 2 ? K_ULT : K_SLT;
    bool mx = in.imm & 1;
    if (!x.e && !y.e) { bool lt = ExprPool::fold(k, in.w, x.c, y.c); fr->regs[in.dst] = (lt != mx) ? x : y; break; }
    Expr *lt = P.cmp(k, X(x, in.w), X(y, in.w));
    fr->regs[in.dst] = VE(mx ? P.ite(lt, X(y, in.w), X(x, in.w)) : P.ite(lt, X(x, in.w), X(y, in.w)));
    break;
  }
  case I_ABS: {
    Val x = R(a[0]);
    if (!x.e) { int64_t s = sext64(x.c, in.w); fr->regs[in.dst] = V((s < 0 ? 0 - (uint64_t)s : (uint64_t)s) & maskw(in.w)); break; }
    fr->regs[in.dst] = VE(P.ite(P.cmp(K_SLT, x.e, P.con(0, in.w)), P.bin(K_SUB, P.con(0, in.w), x.e), x.e));
    break;
  }
  case I_BSWAP: {
    Val x = R(a[0]); unsigned n = in.w / 8;
    Expr *e = X(x, in.w), *acc = nullptr;
    for (unsigned i = n; i-- > 0;) { Expr *b = P.extract(e, 8 * i, 8); acc = acc ? P.concat(b, acc) : b; }
    fr->regs[in.dst] = VE(acc);
    break;
  }
  case I_SAT: {
    Expr *x = X(R(a[0]), in.w), *y = X(R(a[1]), in.w);
    if (in.imm == 0) { Expr *r = P.bin(K_ADD, x, y); fr->regs[in.dst] = VE(P.ite(P.ult(r, x), P.con(~0ull, in.w), r)); }
    else fr->regs[in.dst] = VE(P.ite(P.ult(x, y), P.con(0, in.w), P.bin(K_SUB, x, y)));
    break;
  }
  case I_FSH: {
    Expr *x = X(R(a[0]), in.w), *y = X(R(a[1]), in.w);
    uint64_t n = conc(a[2]) % in.w;
    if (in.imm == 1) n = (in.w - n) % in.w, n = n;
    if (in.imm == 1) { uint64_t r = (in.w - n) % in.w; if (r == 0) fr->regs[in.dst] = VE(y); else fr->regs[in.dst] = VE(P.bin(K_OR, P.bin(K_SHL, x, P.con(in.w - r, in.w)), P.bin(K_LSHR, y, P.con(r, in.w)))); break; }
    if (n == 0) fr->regs[in.dst] = VE(x);
    else fr->regs[in.dst] = VE(P.bin(K_OR, P.bin(K_SHL, x, P.con(n, in.w)), P.bin(K_LSHR, y, P.con(in.w - n, in.w))));
    break;
  }
  case I_CTPOP: { uint64_t v = conc(a[0]); fr->regs[in.dst] = V(__builtin_popcountll(v)); break; }
  case I_CTLZ: { uint64_t v = conc(a[0]); fr->regs[in.dst] = V(v ? __builtin_clzll(v) - (64 - in.w) : in.w); break; }
  case I_CTTZ: { uint64_t v = conc(a[0]); fr->regs[in.dst] = V(v ? __builtin_ctzll(v) : in.w); break; }
  case I_FABS: { uint64_t v = conc(a[0]); fr->regs[in.dst] = V(fromD(fabs(asD(v, in.w)), in.w)); break; }
  case I_FMA: { fr->regs[in.dst] = V(fromD(asD(conc(a[0]), in.w) * asD(conc(a[1]), in.w) + asD(conc(a[2]), in.w), in.w)); break; }
  case I_TRAP: violation("memory", "trap at " + where()); throw PathEnd();
  default: fatal("intrinsic");
  }
}

static void step() {
  const Inst &in = fr->f->code[fr->pc++];
  curInst = &in;
  instrLocal++;
  st->instrs++;
  switch (in.op) {
  case OP_ALLOCA: {
    uint64_t n = concretize(R(in.a));
    uint32_t id = st->add(newObj(in.imm * n, OF_STACK, 0xA5));
    fr->allocas.push_back(id);
    fr->regs[in.dst] = V(mkAddr(id));
    break;
  }
  case OP_LOAD: {
    Val p = R(in.a);
    if (in.n == 1) {
      if (!p.e) {  // fast path
        Obj *o = st->get(p.c >> 32);
        uint64_t off = (p.c & 0xffffffffu) - OFF0;
        unsigned n = (in.w + 7) / 8;
        if (o && !o->sym && !o->symSize && off < o->size && off + n <= o->size) {
          uint64_t v = 0;
          memcpy(&v, o->data + off, n);
          fr->regs[in.dst] = V(in.w < 64 ? v & maskw(in.w) : v);
          break;
        }
      }
      Val r = memLoad(p, in.w);
      fr->regs[in.dst] = r;
    } else {
      uint64_t a = concretize(p);
      int k = 0;
      for (auto &f : ((MemTy *)in.p)->f) { Val r = memLoad(V(a + f.first), f.second); fr->regs[in.dst + k++] = r; }
    }
    break;
  }
  case OP_STORE: {
    Val p = R(in.a);
    if (in.n == 1) {
      Val v = R(in.b);
      if (!p.e && !v.e) {
        uint32_t id = p.c >> 32;
        Obj *o = st->get(id);
        uint64_t off = (p.c & 0xffffffffu) - OFF0;
        unsigned n = (in.w + 7) / 8;
        if (o && !o->sym && !o->symSize && !(o->flags & OF_CONST) && off < o->size && off + n <= o->size) {
          o = st->getW(id);
          uint64_t c = v.c;
          memcpy(o->data + off, &c, n);
          break;
        }
      }
      memStore(p, in.w, v);
    } else {
      auto *pr = (std::pair<MemTy, vector<int32_t>> *)in.p;
      uint64_t a = concretize(p);
      for (size_t i = 0; i < pr->second.size(); i++) memStore(V(a + pr->first.f[i].first), pr->first.f[i].second, R(pr->second[i]));
    }
    break;
  }
  case OP_GEP: {
    Val b = R(in.a);
    uint64_t c = b.c + in.imm;
    Expr *e = b.e ? P.bin(K_ADD, b.e, P.con(in.imm, 64)) : nullptr;
    for (auto &[s, w, sc] : ((GepInfo *)in.p)->idx) {
      Val x = R(s);
      if (!x.e) {
        uint64_t d = (uint64_t)sext64(x.c, w) * (uint64_t)sc;
        if (e) e = P.bin(K_ADD, e, P.con(d, 64)); else c += d;
      } else {
        Expr *xe = P.bin(K_MUL, P.sextE(x.e, 64), P.con(sc, 64));
        e = P.bin(K_ADD, e ? e : P.con(c, 64), xe);
      }
    }
    fr->regs[in.dst] = e ? VE(e) : V(c);
    break;
  }
  case OP_BR: jump(fr, (Edge *)in.p); break;
  case OP_CONDBR: {
    Val c = R(in.a);
    Edge *e = (Edge *)in.p;
    if (!c.e) { jump(fr, &e[c.c ? 0 : 1]); break; }
    bool v = evalE(c.e);
    Expr *other = v ? P.notE(c.e) : c.e;
    Model m;
    int r = feasible(st, other, &m);
    if (r == 1) {
      State *n = forkState();
      n->model = m;
      addCon(n, other);
      jump(&n->top(), &e[v ? 1 : 0]);
      addCon(st, v ? c.e : P.notE(c.e));
    }
    jump(fr, &e[v ? 0 : 1]);
    break;
  }
  case OP_SWITCH: {
    Val c = R(in.a);
    auto *si = (SwitchInfo *)in.p;
    if (c.e) {
      // split off each feasible case
      uint64_t v = evalE(c.e);
      Edge *mine = &si->def;
      for (auto &cs : si->cases) if (cs.first == v) mine = &cs.second;
      Expr *anyCase = P.fls();
      for (auto &cs : si->cases) {
        Expr *q = P.eq(c.e, P.con(cs.first, in.w));
        anyCase = P.bin(K_OR, anyCase, q);
        if (cs.first == v) continue;
        Model m;
        if (feasible(st, q, &m) == 1) {
          State *n = forkState();
          n->model = m; addCon(n, q); jump(&n->top(), &cs.second);
        }
      }
      if (mine != &si->def) {
        Expr *q = P.notE(anyCase);
        Model m;
        if (feasible(st, q, &m) == 1) { State *n = forkState(); n->model = m; addCon(n, q); jump(&n->top(), &si->def); }
        addCon(st, P.eq(c.e, P.con(v, in.w)));
      } else addCon(st, P.notE(anyCase));
      jump(fr, mine);
      break;
    }
    Edge *e = &si->def;
    for (auto &cs : si->cases) if (cs.first == c.c) { e = &cs.second; break; }
    jump(fr, e);
    break;
  }
  case OP_RET: {
    vector<Val> vals;
    for (int32_t o : *(vector<int32_t> *)in.p) vals.push_back(R(o));
    if (st->frames.size() == 1 && st->cur == 0) pathCompleted = true;
    doReturn(vals);
    break;
  }
  case OP_UNREACHABLE: violation("memory", "unreachable code reached at " + where()); throw PathEnd();
  case OP_SELECT: {
    Val c = R(in.a);
    auto *v = (std::pair<vector<int32_t>, vector<int32_t>> *)in.p;
    if (!c.e) {
      auto &src = c.c ? v->first : v->second;
      if (in.n == 1) { Val x = R(src[0]); fr->regs[in.dst] = x; break; }
      vector<Val> t; for (int32_t o : src) t.push_back(R(o));
      for (unsigned i = 0; i < in.n; i++) fr->regs[in.dst + i] = t[i];
      break;
    }
    vector<Val> t;
    for (unsigned i = 0; i < in.n; i++) {
      unsigned w = in.n == 1 ? in.w : (*(vector<unsigned> *)in.imm)[i];
      t.push_back(VE(P.ite(c.e, X(R(v->first[i]), w), X(R(v->second[i]), w))));
    }
    for (unsigned i = 0; i < in.n; i++) fr->regs[in.dst + i] = t[i];
    break;
  }
  case OP_BIN: {
    Val a = R(in.a), b = R(in.b);
    Kind k = (Kind)in.sub;
    if (k >= K_UDIV && k <= K_SREM) {
      if (!b.e) { if (!b.c) { violation("memory", "division by zero at " + where()); throw PathEnd(); } }
      else {
        SHADD(memChecks, 1);
        Model m;
        Expr *z = P.eq(b.e, P.con(0, in.w));
        if (feasible(st, z, &m) == 1) {
          violation("memory", "division by zero at " + where(), m);
          throw PathEnd();
        }
      }
    }
    if (!a.e && !b.e) fr->regs[in.dst] = V(ExprPool::fold(k, in.w, a.c, b.c));
    else fr->regs[in.dst] = VE(P.bin(k, X(a, in.w), X(b, in.w)));
    break;
  }
  case OP_CMP: {
    Val a = R(in.a), b = R(in.b);
    if (!a.e && !b.e) fr->regs[in.dst] = V(ExprPool::fold((Kind)in.sub, in.w, a.c, b.c) ^ in.n);
    else {
      Expr *e = P.cmp((Kind)in.sub, X(a, in.w), X(b, in.w));
      fr->regs[in.dst] = VE(in.n ? P.notE(e) : e);
    }
    break;
  }
  case OP_TRUNC: { Val a = R(in.a); fr->regs[in.dst] = a.e ? VE(P.extract(a.e, 0, in.w)) : V(a.c & maskw(in.w)); break; }
  case OP_ZEXT: { Val a = R(in.a); fr->regs[in.dst] = a.e ? VE(P.zext(a.e, in.w)) : a; break; }
  case OP_SEXT: { Val a = R(in.a); fr->regs[in.dst] = a.e ? VE(P.sextE(a.e, in.w)) : V((uint64_t)sext64(a.c, in.w2) & maskw(in.w)); break; }
  case OP_COPY: {
    if (in.n <= 1) { Val v = R(in.a); if (in.dst >= 0) fr->regs[in.dst] = v; break; }
    auto &src = *(vector<int32_t> *)in.p;
    vector<Val> t; for (int32_t o : src) t.push_back(R(o));
    for (unsigned i = 0; i < t.size(); i++) fr->regs[in.dst + i] = t[i];
    break;
  }
  case OP_FNEG: { uint64_t a = concretize(R(in.a)); fr->regs[in.dst] = V(fromD(-asD(a, in.w), in.w)); break; }
  case OP_FBIN: {
    Val va = R(in.a), vb = R(in.b);
    if (in.w == 64 && (va.e || vb.e) && in.sub != '%') {
      Kind k = in.sub == '+' ? K_FADD : in.sub == '-' ? K_FSUB : in.sub == '*' ? K_FMUL : K_FDIV;
      fr->regs[in.dst] = VE(P.fp(k, X(va, 64), X(vb, 64)));
      break;
    }
    double a = asD(concretize(R(in.a)), in.w), b = asD(concretize(R(in.b)), in.w), r = 0;
    if (in.w == 32) { float x = a, y = b, z = in.sub == '+' ? x + y : in.sub == '-' ? x - y : in.sub == '*' ? x * y : in.sub == '/' ? x / y : fmodf(x, y); r = z; }
    else r = in.sub == '+' ? a + b : in.sub == '-' ? a - b : in.sub == '*' ? a * b : in.sub == '/' ? a / b : fmod(a, b);
    fr->regs[in.dst] = V(fromD(r, in.w));
    break;
  }
  case OP_FCMP: {
    Val va = R(in.a), vb = R(in.b);
    if (in.w == 64 && (va.e || vb.e)) {
      Expr *x = X(va, 64), *y = X(vb, 64), *r = P.fls();
      if (in.sub & 1) r = P.bin(K_OR, r, P.fp(K_FEQ, x, y));
      if (in.sub & 2) r = P.bin(K_OR, r, P.fp(K_FLT, y, x));
      if (in.sub & 4) r = P.bin(K_OR, r, P.fp(K_FLT, x, y));
      if (in.sub & 8) r = P.bin(K_OR, r, P.bin(K_OR, P.notE(P.fp(K_FEQ, x, x)), P.notE(P.fp(K_FEQ, y, y))));
      fr->regs[in.dst] = VE(r);
      break;
    }
    double a = asD(concretize(R(in.a)), in.w), b = asD(concretize(R(in.b)), in.w);
    bool un = std::isnan(a) || std::isnan(b), r = false;
    unsigned p = in.sub;  // bits: 1 eq, 2 gt, 4 lt, 8 uno
    if (un) r = p & 8; else r = ((p & 1) && a == b) || ((p & 2) && a > b) || ((p & 4) && a < b);
    fr->regs[in.dst] = V(r);
    break;
  }
  case OP_FCVT: {
    using llvm::Instruction;
    if (Val v = R(in.a); v.e) {
      Expr *x = nullptr;
      switch (in.sub) {
      case Instruction::UIToFP: if (in.w == 64) x = P.fp(K_UTOF, P.zext(v.e, 64)); break;
      case Instruction::SIToFP: if (in.w == 64) x = P.fp(K_STOF, P.sextE(v.e, 64)); break;
      case Instruction::FPToUI: if (in.w2 == 64) x = P.extract(P.fp(K_FTOU, v.e), 0, in.w); break;
      case Instruction::FPToSI: if (in.w2 == 64) x = P.extract(P.fp(K_FTOS, v.e), 0, in.w); break;
      default: break;
      }
      if (x) { fr->regs[in.dst] = VE(x); break; }
    }
    uint64_t a = concretize(R(in.a)), r;
    switch (in.sub) {
    case Instruction::UIToFP: r = in.w == 32 ? fromD((float)a, 32) : fromD((double)a, 64); break;
    case Instruction::SIToFP: r = in.w == 32 ? fromD((float)sext64(a, in.w2), 32) : fromD((double)sext64(a, in.w2), 64); break;
    case Instruction::FPToUI: r = (uint64_t)asD(a, in.w2) & maskw(in.w); break;
    case Instruction::FPToSI: r = (uint64_t)(int64_t)asD(a, in.w2) & maskw(in.w); break;
    default: r = fromD(asD(a, in.w2), in.w);
    }
    fr->regs[in.dst] = V(r);
    break;
  }
  case OP_INTRIN: intrin(in); break;
  case OP_CALL: {
    auto *ci = (CallInfo *)in.p;
    Func *f = ci->f;
    if (ci->builtin >= 0) { callBuiltin(ci, in); break; }
    if (!f) {
      if (ci->callee) { unsupported("call of unmodelled function " + ci->name); }
      uint64_t a = concretize(R(ci->fn));
      auto it = funcById.find(a >> 32);
      if (it == funcById.end() || (a & 0xffffffffu) != OFF0) memFault("call through invalid function pointer " + hex(a));
      auto fi = funcs.find(it->second);
      if (fi == funcs.end()) {
        auto bi = builtinByName.find(it->second->getName().str());
        if (bi == builtinByName.end()) unsupported("indirect call of unmodelled function " + it->second->getName().str());
        CallInfo tmp = *ci;
        tmp.builtin = bi->second;
        callBuiltin(&tmp, in);
        break;
      }
      f = fi->second;
    }
    vector<Val> args;
    for (size_t i = 0; i < ci->args.size(); i++) {
      Val v = R(ci->args[i]);
      args.push_back(v);
    }
    Frame *caller = fr;
    (void)caller;
    for (size_t i = 0; i < args.size(); i++)
      if (ci->byval[i]) {
        uint32_t id = st->add(newObj(ci->byval[i], OF_STACK, 0xA5));
        memCopy(V(mkAddr(id)), args[i], ci->byval[i]);
        args[i] = V(mkAddr(id));
      }
    pushFrame(f, in.dst);
    size_t na = f->argWidths.size();
    if (args.size() < na) { memFault("call of " + f->name + " with too few arguments"); }
    for (size_t i = 0; i < na; i++) {
      if (args[i].e && args[i].e->w != f->argWidths[i]) unsupported("argument width mismatch calling " + f->name);
      fr->regs[i] = args[i];
    }
    for (size_t i = 0; i < args.size(); i++) if (ci->byval[i]) fr->allocas.push_back(args[i].c >> 32);
    if (f->F->isVarArg()) {
      size_t nv = args.size() - na;
      Obj *o = newObj(nv * 8 + 8, OF_STACK, 0xA5);
      fr->varargs = st->add(o);
      for (size_t i = 0; i < nv; i++) {
        Val v = args[na + i];
        unsigned w = ci->widths[na + i];
        if (v.e && w < 64) v = VE(P.zext(v.e, 64));
        storeAt(o, i * 8, 64, v);
      }
    }
    break;
  }
  default: unsupported("unsupported instruction " + show(in.I));
  }
}

static void finishPath() {
  uint64_t n = __sync_add_and_fetch(&sh->paths, 1);
  // log-spaced samples for native replay
  bool take = (n & (n - 1)) == 0 || n % 997 == 0;
  if (take) {
    uint64_t k = __sync_fetch_and_add(&sh->samples, 1);
    if (k < optSamples) {
      // frames are gone: keep where() valid
      FILE *f = fopen((optOut + "/sample-" + std::to_string(k) + ".txt").c_str(), "w");
      if (f) {
        fprintf(f, "kind path\nentry %s\n", optEntry.c_str());
        for (uint32_t s : *st->symOrder)
          fprintf(f, "sym %s %u %llu\n", P.syms[s].name.c_str(), P.syms[s].w, (unsigned long long)(s < st->model->size() ? (*st->model)[s] : 0));
        for (auto &o : st->obs)
          fprintf(f, "obs %s %llu\n", o.first.c_str(), (unsigned long long)(o.second.e ? P.eval(o.second.e, *st->model) : o.second.c));
        fclose(f);
      }
    }
  }
}

static bool split() {
  // hand half of the queue (the oldest states) to a new process
  if (work.empty()) return false;
  for (;;) {
    int a = sh->active;
    if (a >= (int)optJobs) return false;
    if (__sync_bool_compare_and_swap(&sh->active, a, a + 1)) break;
  }
  size_t give = (work.size() + 1) / 2;
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) { __sync_fetch_and_sub(&sh->active, 1); return false; }
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    SHADD(workerSeq, 1);
    std::deque<State *> mine(work.begin(), work.begin() + give);
    work.swap(mine);
    instrLocal = 0;
    workerStart = now();
    return true;  // child: abandon current state
  }
  for (size_t i = 0; i < give; i++) delete work[i];
  work.erase(work.begin(), work.begin() + give);
  return false;
}

static int explore(Func *entry) {
  S.init();
  st = initState;
  st->model = std::make_shared<vector<uint64_t>>();
  st->symOrder = std::make_shared<vector<uint32_t>>();
  pushFrame(entry, -1);
  workerStart = now();
  sh->active = 1;
  pid_t rootPid = getpid();
  work.push_back(st);
  while (!work.empty() && !sh->stop) {
    st = work.back();
    work.pop_back();
    fr = nullptr;
    refresh();
    bool child = false;
    uint64_t tick = 0;
    pathCompleted = false;
    try {
      for (;;) {
        step();
        if (wantSplit) { wantSplit = false; workerStart = now(); if (split()) { child = true; break; } }
        if ((++tick & 0xfffff) == 0) {
          if (sh->stop) break;
          if (now() - tStart > optTimeout) { sh->incomplete = 1; sh->stop = 1; shLock(); if (!sh->firstError[0]) snprintf(sh->firstError, sizeof sh->firstError, "time limit of %g s reached", optTimeout); shUnlock(); break; }
          if (st->instrs > optMaxInstr) { violation("hang", "path exceeds " + std::to_string(optMaxInstr) + " instructions at " + where()); break; }
          if (!work.empty() && sh->active < (int)optJobs) wantSplit = true;
        }
      }
    } catch (PathEnd &) {
      if (pathCompleted) finishPath();
    }
    if (!child) delete st;
    if (!child && now() - tStart > optTimeout && !work.empty()) { sh->incomplete = 1; sh->stop = 1; shLock(); if (!sh->firstError[0]) snprintf(sh->firstError, sizeof sh->firstError, "time limit of %g s reached", optTimeout); shUnlock(); }
    if (!work.empty() && sh->active < (int)optJobs && (work.size() >= 32 || (work.size() >= 4 && now() - workerStart > 0.03) || now() - workerStart > 0.3)) { workerStart = now(); wantSplit = false; split(); }
  }
  SHADD(instrs, instrLocal);
  __sync_fetch_and_sub(&sh->active, 1);
  int status;
  while (true) {
    pid_t p = wait(&status);
    if (p < 0) { if (errno == EINTR) continue; break; }
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) { sh->crashed = 1; sh->incomplete = 1; }
  }
  if (getpid() != rootPid) _exit(0);

  int rc = sh->violations ? 1 : (sh->incomplete || sh->crashed) ? 3 : 0;
  FILE *f = fopen((optOut + "/stats.json").c_str(), "w");
  if (!f) return 3;
  fprintf(f, "{\"rc\": %d, \"incomplete\": %d, \"crashed\": %d, \"error\": \"%s\",\n", rc, sh->incomplete, sh->crashed, esc(sh->firstError).c_str());
  fprintf(f, " \"paths\": %llu, \"assumed_away\": %llu, \"forks\": %llu, \"instructions\": %llu,\n", (unsigned long long)sh->paths, (unsigned long long)sh->assumed, (unsigned long long)sh->forks, (unsigned long long)sh->instrs);
  fprintf(f, " \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"cache_hits\": %llu, \"solver_s\": %.3f,\n", (unsigned long long)sh->queries, (unsigned long long)sh->queriesSat, (unsigned long long)sh->queriesUnsat, (unsigned long long)sh->unknown, (unsigned long long)sh->cacheHits, sh->solverUs / 1e6);
  fprintf(f, " \"asserts\": %llu, \"asserts_solver\": %llu, \"memory_checks_solver\": %llu, \"max_constraints\": %llu, \"max_call_depth\": %llu, \"workers\": %llu, \"wall_s\": %.3f,\n", (unsigned long long)sh->asserts, (unsigned long long)sh->assertsSolver, (unsigned long long)sh->memChecks, (unsigned long long)sh->maxConstraints, (unsigned long long)sh->maxFrames, (unsigned long long)sh->workerSeq + 1, now() - tStart);
  fprintf(f, " \"known_hits\": %llu,\n \"covers\": {", (unsigned long long)sh->knownHits);
  for (int i = 0; i < sh->nCover; i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", esc(sh->cover[i].name).c_str(), (unsigned long long)sh->cover[i].hits);
  fprintf(f, "},\n \"functions\": {");
  bool first = true;
  for (auto *fn : funcList) {
    if (!fn->prog || !sh->funcHit[fn->idx]) continue;
    unsigned hit = 0;
    for (unsigned b = 0; b < fn->nblocks; b++) hit += sh->blockHit[fn->blockBase + b];
    fprintf(f, "%s\"%s\": [%u, %u]", first ? "" : ", ", fn->name.c_str(), hit, fn->nblocks);
    first = false;
  }
  fprintf(f, "},\n \"violations\": [");
  for (int i = 0; i < sh->nViol; i++) fprintf(f, "%s{\"message\": \"%s\", \"file\": \"%s\"}", i ? ", " : "", esc(sh->viol[i].msg).c_str(), esc(sh->viol[i].file).c_str());
  fprintf(f, "]}\n");
  fclose(f);
  return rc;
}
