// ------------------------------------------------------------------ memory operations
static uint64_t alloc_obj(uint64_t size, uint8_t kind, const std::string &what, bool zero = false) {
    auto o  = std::make_unique<Obj>();
    o->base = NEXT;
    o->size = size;
    o->kind = kind;
    o->what = what;
    NEXT += ((size + 15) & ~15ull) + 32;
    o->data.assign(size, 0);
    o->st.assign(size, zero ? 1 : 0);
    uint64_t b = o->base;
    OBJ[b]     = std::move(o);
    return b;
}
static Obj *find_obj(uint64_t a) {
    if (lastObj && a >= lastObj->base && a < lastObj->base + lastObj->size) return lastObj;
    auto it = OBJ.upper_bound(a);
    if (it == OBJ.begin()) return nullptr;
    --it;
    Obj *o = it->second.get();
    if (a >= o->base && a <= o->base + o->size + 31) { lastObj = o; return o; }
    return nullptr;
}
static const char *kindname(int k) { return k == 0 ? "global" : k == 1 || k == 3 || k == 4 ? "heap" : "stack"; }
static Obj *resolve(uint64_t a, uint64_t len, bool write) {
    if (a < 4096) violation(std::string(write ? "write" : "read") + " through a null pointer", "memory");
    Obj *o = find_obj(a);
    if (!o) violation(std::string(write ? "write" : "read") + " through a wild pointer", "memory");
    if (o->freed) violation(std::string(write ? "write to" : "read of") + " freed " + kindname(o->kind) + " memory " + o->what, "memory");
    if (a < o->base || a - o->base > o->size || len > o->size - (a - o->base))
        violation(std::string("out-of-bounds ") + (write ? "write" : "read") + " at offset " + std::to_string((long long)(a - o->base)) + " size " + std::to_string(len) + " of " + kindname(o->kind) + " object of " + std::to_string(o->size) + " bytes " + o->what, "memory");
    return o;
}
// lockset per access; threads of one team only meet at barriers, where the record starts afresh
static bool common_lock(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) { for (uint64_t x : a) for (uint64_t y : b) if (x == y) return true; return false; }
static void race_access(uint64_t a, uint64_t n, bool write) {
    Thread &t = *THR[CUR];
    SH->races_checked++;
    for (uint64_t k = a; k < a + n; k++) {
        auto &l = RACE[k];
        bool have = false;
        for (auto &x : l) {
            if (x.who == t.rid) { have = have || (x.write >= write && x.held == t.held); continue; }
            if ((x.write || write) && !common_lock(x.held, t.held)) violation(std::string("data race: ") + (write ? "write" : "read") + " conflicts with an unsynchronised " + (x.write ? "write" : "read") + " by another thread", "race");
        }
        if (!have) l.push_back({t.rid, write, t.held});
    }
}
static Val byte_of(const SymCell &c, unsigned b) {
    if (c.v.k == K::SInt) {
        z3::expr e = c.v.e();
        if (e.is_bool()) e = z3::ite(e, ZC->bv_val(1, 8), ZC->bv_val(0, 8));
        return Val::S(e.extract(8 * b + 7, 8 * b));
    }
    Val v; v.k = K::Undef; return v;
}
static void split_cell(Obj *o, uint32_t off) {
    auto it = o->cells.find(off);
    SymCell c = it->second;
    o->cells.erase(it);
    for (unsigned b = 0; b < c.size; b++) {
        Val v = byte_of(c, b);
        if (v.k == K::Int) { o->st[off + b] = 1; o->data[off + b] = v.i; }
        else if (v.k == K::SInt) { o->st[off + b] = 2; o->cells[off + b] = SymCell{1, v}; }
        else o->st[off + b] = 0;
    }
}
static void clear_range(Obj *o, uint64_t off, uint64_t n) { // prepare [off,off+n) for overwriting
    if (o->cells.empty()) return;
    auto it = o->cells.lower_bound(off >= 8 ? off - 8 : 0);
    std::vector<uint32_t> sp;
    while (it != o->cells.end() && it->first < off + n) {
        uint32_t c = it->first, e = c + it->second.size;
        if (e <= off) { ++it; continue; }
        if (c >= off && e <= off + n) { it = o->cells.erase(it); continue; }
        sp.push_back(c);
        ++it;
    }
    for (auto c : sp) split_cell(o, c);
    if (!sp.empty()) clear_range(o, off, n);
}
static Val load_raw(uint64_t a, unsigned n, bool fp) {
    Obj *o = resolve(a, n, false);
    if (RACE_ON) race_access(a, n, false);
    uint64_t off = a - o->base;
    bool any2 = false, any0 = false;
    for (unsigned b = 0; b < n; b++) { uint8_t s = o->st[off + b]; if (s == 2) any2 = true; else if (s == 0) any0 = true; }
    if (!any2) {
        if (any0 && (fp || n > 8)) return Val();
        uint64_t u = 0;
        memcpy(&u, &o->data[off], std::min(n, 8u));
        if (any0) {
            Val v;
            v.i = u;
            for (unsigned b = 0; b < n; b++) if (o->st[off + b]) v.um |= 1u << b;
            return v;
        }
        if (fp) {
            if (n == 8) { double d; memcpy(&d, &u, 8); return Val::D(d); }
            float f; memcpy(&f, &u, 4); return Val::D(f);
        }
        return Val::I(u);
    }
    auto it = o->cells.find(off);
    if (it != o->cells.end() && it->second.size == n) {
        Val v = it->second.v;
        if (v.k == K::Real && !fp) { v.k = K::RBits; return v; }
        if (v.k == K::SInt && fp) engine_error("symbolic integer bits read as floating point");
        return v;
    }
    if (any0 || fp) return Val();
    // compose bytes
    z3::expr_vector parts(*ZC);
    for (int b = n - 1; b >= 0; b--) {
        if (o->st[off + b] == 1) { parts.push_back(ZC->bv_val((uint64_t)o->data[off + b], 8)); continue; }
        auto jt = o->cells.upper_bound(off + b);
        --jt;
        Val v = byte_of(jt->second, off + b - jt->first);
        if (v.k == K::Undef) engine_error("partial read of a symbolic real");
        parts.push_back(bv_of(v, 8));
    }
    z3::expr e = parts[0];
    for (unsigned k = 1; k < parts.size(); k++) e = z3::concat(e, parts[k]);
    return Val::S(e);
}
static void store_raw(uint64_t a, unsigned n, const Val &v, bool fp) {
    Obj *o = resolve(a, n, true);
    if (o->ro) violation("write to read-only memory " + o->what, "memory");
    if (RACE_ON) race_access(a, n, true);
    uint64_t off = a - o->base;
    clear_range(o, off, n);
    switch (v.k) {
    case K::Undef:
        for (unsigned b = 0; b < n; b++) {
            o->st[off + b] = 0;
            if (b < 8 && (v.um >> b & 1)) { o->st[off + b] = 1; o->data[off + b] = v.i >> (8 * b) & 255; }
        }
        return;
    case K::Int:
        for (unsigned b = 0; b < n; b++) { o->st[off + b] = 1; o->data[off + b] = b < 8 ? (v.i >> (8 * b)) & 255 : 0; }
        return;
    case K::Dbl:
        if (n == 8) memcpy(&o->data[off], &v.d, 8); else { float f = v.d; memcpy(&o->data[off], &f, 4); }
        for (unsigned b = 0; b < n; b++) o->st[off + b] = 1;
        return;
    case K::SInt: case K::Real: case K::RBits: {
        for (unsigned b = 0; b < n; b++) o->st[off + b] = 2;
        Val w = v;
        if (w.k == K::RBits) w.k = K::Real;
        if (w.k == K::SInt) { z3::expr e = w.e(); if (e.is_bool()) { w = Val::S(z3::ite(e, ZC->bv_val(1, n * 8), ZC->bv_val(0, n * 8))); } else if (e.get_sort().bv_size() < n * 8) w = Val::S(z3::zext(e, n * 8 - e.get_sort().bv_size())); }
        if (w.k == K::Int) { clear_range(o, off, n); for (unsigned b = 0; b < n; b++) { o->st[off + b] = 1; o->data[off + b] = (w.i >> (8 * b)) & 255; } return; }
        o->cells[off] = SymCell{(uint8_t)n, w};
        return;
    }
    default: engine_error("store kind");
    }
}
static bool is_fp(Type *t) { return t->isDoubleTy() || t->isFloatTy(); }
static Val load_ty(Type *t, uint64_t a) {
    if (t->isPointerTy()) return load_raw(a, 8, false);
    if (is_fp(t)) return load_raw(a, t->isDoubleTy() ? 8 : 4, true);
    if (t->isIntegerTy()) {
        unsigned w = t->getIntegerBitWidth();
        unsigned n = (w + 7) / 8;
        if (n > 8) { // wide integers as aggregate of bytes-chunks
            std::vector<Val> c;
            for (unsigned k = 0; k < n; k += 8) c.push_back(load_raw(a + k, std::min(8u, n - k), false));
            Val v = Val::A(c); v.k = K::Wide; return v;
        }
        Val v = load_raw(a, n, false);
        if (v.k == K::Int && w < 64) v.i &= (1ull << w) - 1;
        if (v.k == K::SInt && w != n * 8) { z3::expr e = v.e().extract(w - 1, 0); return w == 1 ? Val::S(e == ZC->bv_val(1, 1)) : Val::S(e); }
        return v;
    }
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        std::vector<Val> r;
        for (unsigned k = 0; k < st->getNumElements(); k++) r.push_back(load_ty(st->getElementType(k), a + sl->getElementOffset(k)));
        return Val::A(r);
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        std::vector<Val> r;
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned k = 0; k < at->getNumElements(); k++) r.push_back(load_ty(at->getElementType(), a + k * es));
        return Val::A(r);
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        std::vector<Val> r;
        uint64_t es = DL->getTypeAllocSize(vt->getElementType());
        for (unsigned k = 0; k < vt->getNumElements(); k++) r.push_back(load_ty(vt->getElementType(), a + k * es));
        return Val::A(r);
    }
    engine_error("load type");
}
static void store_ty(Type *t, uint64_t a, const Val &v) {
    if (t->isPointerTy()) { store_raw(a, 8, v, false); return; }
    if (is_fp(t)) { store_raw(a, t->isDoubleTy() ? 8 : 4, v, true); return; }
    if (t->isIntegerTy()) {
        unsigned n = (t->getIntegerBitWidth() + 7) / 8;
        if (n > 8) {
            if (v.k == K::Wide) { for (unsigned k = 0, j = 0; k < n; k += 8, j++) store_raw(a + k, std::min(8u, n - k), v.agg()[j], false); return; }
            if (v.k == K::Int) { store_raw(a, 8, v, false); for (unsigned k = 8; k < n; k += 8) store_raw(a + k, std::min(8u, n - k), Val::I(0), false); return; }
            if (v.k == K::Undef) { for (unsigned k = 0; k < n; k += 8) store_raw(a + k, std::min(8u, n - k), v, false); return; }
            engine_error("wide store");
        }
        store_raw(a, n, v, false);
        return;
    }
    auto el = [&](unsigned k) { return v.k == K::Undef ? Val() : v.agg()[k]; };
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned k = 0; k < st->getNumElements(); k++) store_ty(st->getElementType(k), a + sl->getElementOffset(k), el(k));
        return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned k = 0; k < at->getNumElements(); k++) store_ty(at->getElementType(), a + k * es, el(k));
        return;
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
        uint64_t es = DL->getTypeAllocSize(vt->getElementType());
        for (unsigned k = 0; k < vt->getNumElements(); k++) store_ty(vt->getElementType(), a + k * es, el(k));
        return;
    }
    engine_error("store type");
}
static void mem_copy(uint64_t d, uint64_t s, uint64_t n) {
    if (n == 0) return;
    Obj *so = resolve(s, n, false);
    Obj *dO = resolve(d, n, true);
    if (dO->ro) violation("write to read-only memory " + dO->what, "memory");
    if (RACE_ON) { race_access(s, n, false); race_access(d, n, true); }
    if (d == s) return;
    uint64_t so_ = s - so->base, do_ = d - dO->base;
    std::vector<uint8_t> bytes(so->data.begin() + so_, so->data.begin() + so_ + n), st(so->st.begin() + so_, so->st.begin() + so_ + n);
    // split partially covered cells in the source
    std::vector<std::pair<uint32_t, SymCell>> cs;
    if (!so->cells.empty()) {
        std::vector<uint32_t> sp;
        for (auto it = so->cells.lower_bound(so_ >= 8 ? so_ - 8 : 0); it != so->cells.end() && it->first < so_ + n; ++it) {
            uint32_t c = it->first, e = c + it->second.size;
            if (e <= so_) continue;
            if (c < so_ || e > so_ + n) sp.push_back(c);
            else cs.push_back({(uint32_t)(c - so_), it->second});
        }
        for (auto c : sp) {
            if (so->cells[c].v.k == K::Real) engine_error("partial copy of a symbolic real");
            split_cell(so, c);
        }
        if (!sp.empty()) { mem_copy(d, s, n); return; }
    }
    clear_range(dO, do_, n);
    memcpy(&dO->data[do_], bytes.data(), n);
    memcpy(&dO->st[do_], st.data(), n);
    for (auto &c : cs) dO->cells[do_ + c.first] = c.second;
}
static void mem_set(uint64_t d, const Val &v, uint64_t n) {
    if (n == 0) return;
    Obj *o = resolve(d, n, true);
    if (RACE_ON) race_access(d, n, true);
    uint64_t off = d - o->base;
    clear_range(o, off, n);
    if (v.k == K::Int) { memset(&o->data[off], v.i & 255, n); memset(&o->st[off], 1, n); }
    else if (v.k == K::Undef) memset(&o->st[off], 0, n);
    else for (uint64_t k = 0; k < n; k++) store_raw(d + k, 1, v, false);
}
static std::string read_cstr(uint64_t a) {
    std::string s;
    for (int k = 0; k < 4000; k++) {
        Val v = load_raw(a + k, 1, false);
        if (v.k != K::Int) { s += "?"; if (v.k == K::Undef) break; continue; }
        if (!v.i) break;
        s += (char)v.i;
    }
    return s;
}

// ------------------------------------------------------------------ constants & decoding
static Val const_val(const Constant *c);
static uint64_t faddr(const Function *f) {
    auto it = FADDR.find(f);
    if (it != FADDR.end()) return it->second;
    static uint64_t nf = 0x10000;
    uint64_t a = nf;
    nf += 16;
    FADDR[f] = a;
    AFN[a]   = f;
    return a;
}
static uint64_t gep_const(const GEPOperator *g) {
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(*DL, off)) engine_error("constant gep");
    Val b = const_val(cast<Constant>(g->getPointerOperand()));
    return b.i + off.getSExtValue();
}
static Val const_val(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) {
            if (ci->getValue().getActiveBits() <= 64) return Val::I(ci->getValue().getLimitedValue());
            std::vector<Val> w;
            for (unsigned k = 0; k < ci->getValue().getNumWords(); k++) w.push_back(Val::I(ci->getValue().getRawData()[k]));
            Val v = Val::A(w); v.k = K::Wide; return v;
        }
        return Val::I(ci->getZExtValue());
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        if (cf->getType()->isDoubleTy()) return Val::D(cf->getValueAPF().convertToDouble());
        if (cf->getType()->isFloatTy()) return Val::D(cf->getValueAPF().convertToFloat());
        APFloat f = cf->getValueAPF(); bool l; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l);
        return Val::D(f.convertToDouble());
    }
    if (isa<UndefValue>(c)) {
        return Val();
    }
    if (isa<ConstantPointerNull>(c)) return Val::I(0);
    if (auto *g = dyn_cast<GlobalVariable>(c)) return Val::I(GADDR.at(g));
    if (auto *f = dyn_cast<Function>(c)) return Val::I(faddr(f));
    if (auto *a = dyn_cast<GlobalAlias>(c)) return const_val(a->getAliasee());
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: return Val::I(gep_const(cast<GEPOperator>(ce)));
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return const_val(ce->getOperand(0));
        case Instruction::Add: return Val::I(const_val(ce->getOperand(0)).i + const_val(ce->getOperand(1)).i);
        case Instruction::Sub: return Val::I(const_val(ce->getOperand(0)).i - const_val(ce->getOperand(1)).i);
        case Instruction::Trunc: { unsigned w = ce->getType()->getIntegerBitWidth(); return Val::I(const_val(ce->getOperand(0)).i & ((w < 64 ? (1ull << w) : 0) - 1)); }
        default: return Val();
        }
    }
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<ConstantDataSequential>(c) || isa<ConstantAggregate>(c)) {
        unsigned n = 0;
        if (auto *st = dyn_cast<StructType>(t)) n = st->getNumElements();
        else if (auto *at = dyn_cast<ArrayType>(t)) n = at->getNumElements();
        else if (auto *vt = dyn_cast<FixedVectorType>(t)) n = vt->getNumElements();
        std::vector<Val> r;
        for (unsigned k = 0; k < n; k++) r.push_back(const_val(c->getAggregateElement(k)));
        return Val::A(r);
    }
    return Val();
}
static int pool_ref(const Constant *c) {
    auto it = POOLIDX.find(c);
    if (it != POOLIDX.end()) return -(it->second + 1);
    POOL.push_back(const_val(c));
    POOLIDX[c] = POOL.size() - 1;
    return -(int)POOL.size();
}
static int builtin_id(const std::string &n);
static // source functions (including inlined ones) whose code is executed, by name
static std::map<std::string, int> SPIDX;
static std::unordered_map<const DISubprogram *, int> SPID;
static void sp_scan(const Function &F, const std::function<void(const DISubprogram *)> &f) {
    const DILocation *last = nullptr;
    for (auto &b : F) for (auto &i : b) {
        const DILocation *l = i.getDebugLoc().get();
        if (!l || l == last) continue;
        last = l;
        for (; l; l = l->getInlinedAt()) if (auto *sp = l->getScope()->getSubprogram()) f(sp);
    }
}
static void sp_index() {
    for (auto &F : *MOD) sp_scan(F, [&](const DISubprogram *sp) {
        if (SPID.count(sp)) return;
        std::string fn = sp->getFilename().str();
        auto p = fn.find("include/htool/");
        if (p == std::string::npos) { SPID[sp] = -1; return; }
        std::string n = sp->getName().str(), o;
        if (n.find("operator") == std::string::npos) { auto k = n.find('<'); n = n.substr(0, k); }
        o = fn.substr(p + 14) + ":" + n;
        SPID[sp] = SPIDX.emplace(o, (int)SPIDX.size()).first->second;
    });
}
// which source lines are executed, block by block (only when SX_LINES names a file to append them to)
static const char *LINES = getenv("SX_LINES");
static std::map<std::string, int> LIDX;
static uint8_t *LHIT;
static std::vector<int> lines_of(const BasicBlock &b) {
    std::vector<int> r;
    const DILocation *last = nullptr;
    for (auto &i : b) {
        const DILocation *l = i.getDebugLoc().get();
        if (!l || l == last) continue;
        last = l;
        for (; l; l = l->getInlinedAt()) {
            std::string fn = l->getFilename().str();
            auto p = fn.find("include/htool/");
            if (p == std::string::npos || !l->getLine()) continue;
            r.push_back(LIDX.emplace(fn.substr(p + 14) + ":" + std::to_string(l->getLine()), (int)LIDX.size()).first->second);
        }
    }
    return r;
}
static void lines_index() {
    if (!LINES) return;
    for (auto &F : *MOD) for (auto &b : F) lines_of(b);
    LHIT = (uint8_t *)mmap(nullptr, LIDX.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static void lines_mark(const Instruction *I) {
    static std::unordered_set<const BasicBlock *> seen;
    if (seen.insert(I->getParent()).second) for (int k : lines_of(*I->getParent())) LHIT[k] = 1;
}
static void lines_write() {
    if (!LINES) return;
    if (FILE *f = fopen(LINES, "a")) { for (auto &p : LIDX) fprintf(f, "%d %s\n", LHIT[p.second], p.first.c_str()); fclose(f); }
}
static Fn *decode(const Function *F) {
    auto it = FNS.find(F);
    if (it != FNS.end()) return it->second.get();
    auto fn = std::make_unique<Fn>();
    Fn *P   = fn.get();
    P->F    = F;
    sp_scan(*F, [&](const DISubprogram *sp) { int k = SPID[sp]; if (k >= 0) SH->funcs[k / 8 % 65536] |= (uint8_t)(1 << (k % 8)); });
    FNS[F]  = std::move(fn);
    std::map<const llvm::Value *, int> reg;
    std::map<const BasicBlock *, int> bid;
    int nr = 0;
    for (auto &a : F->args()) reg[&a] = nr++;
    int nb = 0;
    for (auto &b : *F) { bid[&b] = nb++; for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = nr++; }
    P->nregs = nr;
    P->blks.resize(nb);
    auto ref = [&](const llvm::Value *v) -> int32_t {
        if (auto *c = dyn_cast<Constant>(v)) return pool_ref(c);
        auto it = reg.find(v);
        if (it == reg.end()) return pool_ref(UndefValue::get(Type::getInt1Ty(F->getContext())));
        return it->second;
    };
    for (auto &b : *F) {
        Blk &B = P->blks[bid[&b]];
        for (auto &i : b) {
            if (auto *ph = dyn_cast<PHINode>(&i)) {
                for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) {
                    int pb = bid[ph->getIncomingBlock(k)];
                    auto &mv = B.in[pb].moves;
                    bool dup = false;
                    for (auto &m : mv) if (m.first == reg[&i]) dup = true;
                    if (!dup) mv.push_back({reg[&i], ref(ph->getIncomingValue(k))});
                }
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&i)) continue;
            Ins n;
            n.I  = &i;
            n.op = i.getOpcode();
            n.ty = i.getType();
            if (!i.getType()->isVoidTy()) n.dst = reg[&i];
            if (i.getType()->isIntegerTy()) n.width = i.getType()->getIntegerBitWidth();
            if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                if (g->getType()->isVectorTy()) engine_error("vector gep");
                n.a.push_back(ref(g->getPointerOperand()));
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    const llvm::Value *ix = gi.getOperand();
                    if (StructType *st = gi.getStructTypeOrNull()) n.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    else {
                        int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(ix)) n.off += ci->getSExtValue() * sc;
                        else { n.steps.push_back({ref(ix), sc}); n.width2 = ix->getType()->getIntegerBitWidth(); }
                    }
                }
            } else if (auto *cb = dyn_cast<CallBase>(&i)) {
                const llvm::Value *cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
                n.callee = dyn_cast<Function>(cv);
                if (n.callee) {
                    n.iid = n.callee->getIntrinsicID();
                    if (n.iid == Intrinsic::not_intrinsic) { n.builtin = builtin_id(n.callee->getName().str()); }
                }
                for (auto &o : cb->args()) {
                    if (o->getType()->isMetadataTy()) { n.a.push_back(pool_ref(UndefValue::get(Type::getInt1Ty(F->getContext())))); continue; }
                    n.a.push_back(ref(o));
                }
                if (!n.callee) n.a.push_back(ref(cb->getCalledOperand()));
                if (auto *iv = dyn_cast<InvokeInst>(&i)) { n.succ0 = bid[iv->getNormalDest()]; n.succ1 = bid[iv->getUnwindDest()]; }
            } else if (auto *br = dyn_cast<BranchInst>(&i)) {
                n.succ0 = bid[br->getSuccessor(0)];
                if (br->isConditional()) { n.a.push_back(ref(br->getCondition())); n.succ1 = bid[br->getSuccessor(1)]; }
            } else if (isa<SwitchInst>(&i)) {
                n.a.push_back(ref(cast<SwitchInst>(&i)->getCondition()));
                n.width = cast<SwitchInst>(&i)->getCondition()->getType()->getIntegerBitWidth();
                n.succ0 = bid[cast<SwitchInst>(&i)->getDefaultDest()];
                for (auto c : cast<SwitchInst>(&i)->cases()) n.steps.push_back({bid[c.getCaseSuccessor()], (int64_t)c.getCaseValue()->getZExtValue()});
            } else {
                for (auto &o : i.operands()) {
                    if (isa<BasicBlock>(o)) continue;
                    n.a.push_back(ref(o));
                }
                if (i.getNumOperands() && i.getOperand(0)->getType()->isIntegerTy()) n.width2 = i.getOperand(0)->getType()->getIntegerBitWidth();
                if (auto *c = dyn_cast<CmpInst>(&i)) n.width = c->getOperand(0)->getType()->isIntegerTy() ? c->getOperand(0)->getType()->getIntegerBitWidth() : 64;
                if (auto *s = dyn_cast<StoreInst>(&i)) n.ty = s->getValueOperand()->getType();
            }
            B.ins.push_back(std::move(n));
        }
    }
    return P;
}

// ------------------------------------------------------------------ scalar operations
static uint64_t mask_w(uint64_t x, unsigned w) { return w >= 64 ? x : x & ((1ull << w) - 1); }
static int64_t sx_w(uint64_t x, unsigned w) { return w >= 64 ? (int64_t)x : ((int64_t)(x << (64 - w))) >> (64 - w); }
static z3::expr as_bv1(const z3::expr &b) { return z3::ite(b, ZC->bv_val(1, 1), ZC->bv_val(0, 1)); }
static Val neg_real(const Val &a) { return a.k == K::Dbl ? Val::D(-a.d) : Val::R(ALG->neg(a.r())); }

static Val int_bin(unsigned op, const Val &a, const Val &b, unsigned w) {
    if (a.k == K::Wide || b.k == K::Wide) {
        if (w <= 128) {
            auto g = [&](const Val &v) -> unsigned __int128 {
                if (v.k == K::Int) return v.i;
                if (v.k == K::Wide && v.agg()[0].k == K::Int && v.agg()[1].k == K::Int) return ((unsigned __int128)v.agg()[1].i << 64) | v.agg()[0].i;
                engine_error("wide operand");
            };
            unsigned __int128 x = g(a), y = g(b), r;
            switch (op) {
            case Instruction::Add: r = x + y; break;
            case Instruction::Sub: r = x - y; break;
            case Instruction::Mul: r = x * y; break;
            case Instruction::Or: r = x | y; break;
            case Instruction::And: r = x & y; break;
            case Instruction::Xor: r = x ^ y; break;
            case Instruction::Shl: r = x << (int)y; break;
            case Instruction::LShr: r = x >> (int)y; break;
            case Instruction::UDiv: r = x / y; break;
            case Instruction::URem: r = x % y; break;
            default: engine_error("wide op");
            }
            Val v = Val::A({Val::I((uint64_t)r), Val::I((uint64_t)(r >> 64))}); v.k = K::Wide; return v;
        }
        engine_error("wide integer op");
    }
    if (a.k == K::Undef || b.k == K::Undef) {
        if (op == Instruction::And && ((a.k == K::Int && a.i == 0) || (b.k == K::Int && b.i == 0))) return Val::I(0);
        if (op == Instruction::Or && w == 1 && ((a.k == K::Int && a.i) || (b.k == K::Int && b.i))) return Val::I(1);
        if (op == Instruction::Mul && ((a.k == K::Int && a.i == 0) || (b.k == K::Int && b.i == 0))) return Val::I(0);
        if (op == Instruction::LShr && a.um && b.k == K::Int && b.i % 8 == 0 && b.i < 64) {
            Val v;
            v.i = a.i >> b.i;
            v.um = a.um >> (b.i / 8);
            return v;
        }
        return Val();
    }
    if (a.k == K::RBits || b.k == K::RBits) {
        const Val &r = a.k == K::RBits ? a : b, &c = a.k == K::RBits ? b : a;
        if (c.k == K::Int && op == Instruction::Xor && c.i == 0x8000000000000000ull) { Val v = Val::R(ALG->neg(r.r())); if (v.k == K::Real) v.k = K::RBits; return v; }
        if (c.k == K::Int && op == Instruction::And && c.i == 0x7fffffffffffffffull) { Val v = Val::R(ALG->abs_(r.r())); if (v.k == K::Real) v.k = K::RBits; return v; }
        engine_error("bit operation on a symbolic real");
    }
    if (w > 64) {
        if (a.k == K::Int && b.k == K::Int) {
            unsigned __int128 x = a.i, y = b.i, r;
            switch (op) {
            case Instruction::Add: r = x + y; break;
            case Instruction::Mul: r = x * y; break;
            case Instruction::Or: r = x | y; break;
            case Instruction::And: r = x & y; break;
            case Instruction::Shl: r = x << (int)y; break;
            case Instruction::LShr: r = x >> (int)y; break;
            case Instruction::Sub: r = x - y; break;
            case Instruction::UDiv: r = x / y; break;
            case Instruction::URem: r = x % y; break;
            default: engine_error("wide op");
            }
            Val v = Val::A({Val::I((uint64_t)r), Val::I((uint64_t)(r >> 64))}); v.k = K::Wide; return v;
        }
        engine_error("wide integer op");
    }
    if (a.k == K::Int && b.k == K::Int) {
        uint64_t x = mask_w(a.i, w), y = mask_w(b.i, w), r = 0;
        switch (op) {
        case Instruction::Add: r = x + y; break;
        case Instruction::Sub: r = x - y; break;
        case Instruction::Mul: r = x * y; break;
        case Instruction::UDiv: if (!y) violation("integer division by zero", "memory"); r = x / y; break;
        case Instruction::URem: if (!y) violation("integer division by zero", "memory"); r = x % y; break;
        case Instruction::SDiv: if (!y) violation("integer division by zero", "memory"); if (sx_w(y, w) == -1) r = -x; else r = sx_w(x, w) / sx_w(y, w); break;
        case Instruction::SRem: if (!y) violation("integer division by zero", "memory"); if (sx_w(y, w) == -1) r = 0; else r = sx_w(x, w) % sx_w(y, w); break;
        case Instruction::And: r = x & y; break;
        case Instruction::Or: r = x | y; break;
        case Instruction::Xor: r = x ^ y; break;
        case Instruction::Shl: r = y >= w ? 0 : x << y; break;
        case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
        case Instruction::AShr: r = y >= w ? (sx_w(x, w) < 0 ? -1ull : 0) : sx_w(x, w) >> y; break;
        default: engine_error("int op");
        }
        return Val::I(mask_w(r, w));
    }
    z3::expr x = bv_of(a, w), y = bv_of(b, w);
    if (w == 1) {
        switch (op) {
        case Instruction::And: return Val::S(x && y);
        case Instruction::Or: return Val::S(x || y);
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: 
            if (b.k == K::Int) {
                if (!(b.i & 1)) return a;
                z3::expr nx = (!x).simplify();
                auto at = ATOMS->find(x.id());
                if (at != ATOMS->end() && !ATOMS->count(nx.id())) { AtomInfo ai = at->second.second; ai.mask = 7 & ~ai.mask; register_atom(nx, ai); }
                return Val::S(nx);
            }
            return Val::S(x != y);
        case Instruction::Mul: return Val::S(x && y);
        default: engine_error("i1 op");
        }
    }
    switch (op) {
    case Instruction::Add: return Val::S(x + y);
    case Instruction::Sub: return Val::S(x - y);
    case Instruction::Mul: return Val::S(x * y);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (truth(Val::S(y == ZC->bv_val(0, w)))) violation("integer division by zero", "memory");
        if (op == Instruction::UDiv) return Val::S(z3::udiv(x, y));
        if (op == Instruction::URem) return Val::S(z3::urem(x, y));
        if (op == Instruction::SDiv) return Val::S(x / y);
        return Val::S(z3::srem(x, y));
    case Instruction::And: return Val::S(x & y);
    case Instruction::Or: return Val::S(x | y);
    case Instruction::Xor: return Val::S(x ^ y);
    case Instruction::Shl: return Val::S(z3::shl(x, y));
    case Instruction::LShr: return Val::S(z3::lshr(x, y));
    case Instruction::AShr: return Val::S(z3::ashr(x, y));
    }
    engine_error("int op");
}
static double f32(double x, bool f) { return f ? (double)(float)x : x; }
static bool nonneg(const PolyP &p) { return p->nn || (p->is_const() && sgn(p->cst()) >= 0); }
static bool EXACT = false; // arithmetic on concrete numbers is exact too (results that are not doubles stay rational constants)
static Val fp_bin(unsigned op, const Val &a, const Val &b, bool flt) {
    if (a.k == K::Undef || b.k == K::Undef) return Val();
    if (a.k == K::Dbl && b.k == K::Dbl && !(EXACT && op != Instruction::FRem && std::isfinite(a.d) && std::isfinite(b.d) && !(op == Instruction::FDiv && b.d == 0))) {
        switch (op) {
        case Instruction::FAdd: return Val::D(f32(a.d + b.d, flt));
        case Instruction::FSub: return Val::D(f32(a.d - b.d, flt));
        case Instruction::FMul: return Val::D(f32(a.d * b.d, flt));
        case Instruction::FDiv: return Val::D(f32(a.d / b.d, flt));
        case Instruction::FRem: return Val::D(fmod(a.d, b.d));
        }
        engine_error("fp op");
    }
    bool na = a.k == K::Dbl && !std::isfinite(a.d), nb = b.k == K::Dbl && !std::isfinite(b.d);
    if (na || nb) {
        double s = na ? a.d : b.d;
        if (std::isnan(s)) return Val::D(NAN);
        switch (op) {
        case Instruction::FAdd: return Val::D(s);
        case Instruction::FSub: return Val::D(na ? s : -s);
        case Instruction::FMul: { int sg = real_sign(polyof(na ? b : a)); return Val::D(sg == 0 ? NAN : sg * s); }
        case Instruction::FDiv: if (nb) return Val::D(0.); { int sg = real_sign(polyof(b)); return Val::D(sg < 0 ? -s : s); }
        }
        engine_error("fp op nonfinite");
    }
    PolyP x = polyof(a), y = polyof(b);
    try {
        switch (op) {
        case Instruction::FAdd: { PolyP r = ALG->add(x, y); if (nonneg(x) && nonneg(y)) r->nn = true; return Val::R(r); }
        case Instruction::FSub: return Val::R(ALG->sub(x, y));
        case Instruction::FMul: { PolyP r = ALG->mul(x, y); if (x == y || x->t == y->t || (nonneg(x) && nonneg(y))) r->nn = true; return Val::R(r); }
        case Instruction::FDiv: {
            if (y->is_const() && y->is_zero()) { int s = real_sign(x); return Val::D(s == 0 ? NAN : s > 0 ? INFINITY : -INFINITY); }
            if (!y->is_const() && truth(sign_atom(y, 2))) {
                int s = real_sign(x);
                return Val::D(s == 0 ? NAN : s > 0 ? INFINITY : -INFINITY);
            }
            return Val::R(ALG->div(x, y));
        }
        }
    } catch (Alg::TooBig &) { engine_error("polynomial too big"); }
    engine_error("fp op sym");
}
static Val fsqrt(const Val &a) {
    if (a.k == K::Undef) return a;
    if (a.k == K::Dbl && EXACT && std::isfinite(a.d) && a.d >= 0) return Val::R(ALG->sqrt_(ALG->constant(mpq_of(a.d))));
    if (a.k == K::Dbl) return Val::D(std::sqrt(a.d));
    if (truth(sign_atom(a.r(), 1))) return Val::D(NAN);
    PolyP r = ALG->sqrt_(a.r());
    // |x| with the sign of x already decided on this path
    if (r->t.size() == 1 && ALG->monos[r->t[0].first].size() == 1 && ALG->monos[r->t[0].first][0].second == 1) {
        auto &V = ALG->vars[ALG->monos[r->t[0].first][0].first];
        if (V.kind == VK::Abs) {
            PolyP in = V.a;
            Val neg = sign_atom(in, 1);
            if (neg.k == K::Int) return Val::R(ALG->scale(neg.i ? ALG->neg(in) : in, r->t[0].second));
        }
    }
    return Val::R(r);
}
static Val fabs_(const Val &a) {
    if (a.k == K::Undef) return a;
    if (a.k == K::Dbl) return Val::D(std::fabs(a.d));
    // use sign knowledge when available
    Val neg = sign_atom(a.r(), 1);
    if (neg.k == K::Int) return neg.i ? Val::R(ALG->neg(a.r())) : a;
    return Val::R(ALG->abs_(a.r()));
}
static PolyP fabs_polyp(const PolyP &d) { return polyof(fabs_(Val::R(d))); }
static Val fcmp(unsigned pred, const Val &a, const Val &b) {
    if (a.k == K::Undef || b.k == K::Undef) return Val();
    auto dd = [&](double x, double y) {
        bool un = std::isnan(x) || std::isnan(y);
        switch (pred) {
        case CmpInst::FCMP_FALSE: return false;
        case CmpInst::FCMP_OEQ: return !un && x == y;
        case CmpInst::FCMP_OGT: return !un && x > y;
        case CmpInst::FCMP_OGE: return !un && x >= y;
        case CmpInst::FCMP_OLT: return !un && x < y;
        case CmpInst::FCMP_OLE: return !un && x <= y;
        case CmpInst::FCMP_ONE: return !un && x != y;
        case CmpInst::FCMP_ORD: return !un;
        case CmpInst::FCMP_UNO: return un;
        case CmpInst::FCMP_UEQ: return un || x == y;
        case CmpInst::FCMP_UGT: return un || x > y;
        case CmpInst::FCMP_UGE: return un || x >= y;
        case CmpInst::FCMP_ULT: return un || x < y;
        case CmpInst::FCMP_ULE: return un || x <= y;
        case CmpInst::FCMP_UNE: return un || x != y;
        default: return true;
        }
    };
    if (a.k == K::Dbl && b.k == K::Dbl) return Val::I(dd(a.d, b.d));
    if (a.k == K::Dbl && !std::isfinite(a.d)) return Val::I(dd(a.d, 0));
    if (b.k == K::Dbl && !std::isfinite(b.d)) return Val::I(dd(0, b.d));
    int m;
    switch (pred) {
    case CmpInst::FCMP_FALSE: case CmpInst::FCMP_UNO: return Val::I(0);
    case CmpInst::FCMP_TRUE: case CmpInst::FCMP_ORD: return Val::I(1);
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: m = 2; break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: m = 4; break;
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: m = 6; break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: m = 1; break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: m = 3; break;
    default: m = 5; break;
    }
    return sign_atom(ALG->sub(polyof(a), polyof(b)), m);
}
static Val icmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
    if (a.k == K::Undef || b.k == K::Undef) return Val();
    if (a.k == K::RBits || b.k == K::RBits) {
        const Val &r = a.k == K::RBits ? a : b, &c = a.k == K::RBits ? b : a;
        Val rv = r; rv.k = K::Real;
        if (a.k == K::RBits && c.k == K::Int) {
            if (pred == CmpInst::ICMP_SLT && c.i == 0) return fcmp(CmpInst::FCMP_OLT, rv, Val::D(0));
            if (pred == CmpInst::ICMP_SGT && c.i == ~0ull) return fcmp(CmpInst::FCMP_OGE, rv, Val::D(0));
        }
        Val o = c;
        if (o.k == K::RBits) o.k = K::Real; else { double d; memcpy(&d, &o.i, 8); o = Val::D(d); }
        if (pred == CmpInst::ICMP_EQ) return fcmp(CmpInst::FCMP_OEQ, rv, o);
        if (pred == CmpInst::ICMP_NE) return fcmp(CmpInst::FCMP_UNE, rv, o);
        engine_error("integer comparison of symbolic real bits");
    }
    if (a.k == K::Wide || b.k == K::Wide) {
        auto g = [&](const Val &v, int k) { return v.k == K::Int ? (k ? 0 : v.i) : v.agg()[k].i; };
        unsigned __int128 x = ((unsigned __int128)g(a, 1) << 64) | g(a, 0), y = ((unsigned __int128)g(b, 1) << 64) | g(b, 0);
        switch (pred) {
        case CmpInst::ICMP_EQ: return Val::I(x == y);
        case CmpInst::ICMP_NE: return Val::I(x != y);
        case CmpInst::ICMP_UGT: return Val::I(x > y);
        case CmpInst::ICMP_UGE: return Val::I(x >= y);
        case CmpInst::ICMP_ULT: return Val::I(x < y);
        case CmpInst::ICMP_ULE: return Val::I(x <= y);
        }
        engine_error("wide icmp");
    }
    if (a.k == K::Int && b.k == K::Int) {
        uint64_t x = mask_w(a.i, w), y = mask_w(b.i, w);
        int64_t sx = sx_w(x, w), sy = sx_w(y, w);
        switch (pred) {
        case CmpInst::ICMP_EQ: return Val::I(x == y);
        case CmpInst::ICMP_NE: return Val::I(x != y);
        case CmpInst::ICMP_UGT: return Val::I(x > y);
        case CmpInst::ICMP_UGE: return Val::I(x >= y);
        case CmpInst::ICMP_ULT: return Val::I(x < y);
        case CmpInst::ICMP_ULE: return Val::I(x <= y);
        case CmpInst::ICMP_SGT: return Val::I(sx > sy);
        case CmpInst::ICMP_SGE: return Val::I(sx >= sy);
        case CmpInst::ICMP_SLT: return Val::I(sx < sy);
        case CmpInst::ICMP_SLE: return Val::I(sx <= sy);
        }
    }
    z3::expr x = bv_of(a, w), y = bv_of(b, w);
    if (w == 1) {
        if (pred == CmpInst::ICMP_EQ) return Val::S(x == y);
        if (pred == CmpInst::ICMP_NE) return Val::S(x != y);
        x = as_bv1(x); y = as_bv1(y);
    }
    switch (pred) {
    case CmpInst::ICMP_EQ: return Val::S(x == y);
    case CmpInst::ICMP_NE: return Val::S(x != y);
    case CmpInst::ICMP_UGT: return Val::S(z3::ugt(x, y));
    case CmpInst::ICMP_UGE: return Val::S(z3::uge(x, y));
    case CmpInst::ICMP_ULT: return Val::S(z3::ult(x, y));
    case CmpInst::ICMP_ULE: return Val::S(z3::ule(x, y));
    case CmpInst::ICMP_SGT: return Val::S(x > y);
    case CmpInst::ICMP_SGE: return Val::S(x >= y);
    case CmpInst::ICMP_SLT: return Val::S(x < y);
    case CmpInst::ICMP_SLE: return Val::S(x <= y);
    }
    engine_error("icmp");
}
static Val real_to_int(const Val &a, unsigned w) {
    PolyP p = a.r();
    for (int it = 0; it < 10000; it++) {
        double d = ALG->evald(p);
        double k = std::trunc(d);
        mpq_class kq(k);
        Val c1, c2;
        if (k > 0) { c1 = sign_atom(ALG->sub(p, ALG->constant(kq)), 6); c2 = sign_atom(ALG->sub(p, ALG->constant(kq + 1)), 1); }
        else if (k < 0) { c1 = sign_atom(ALG->sub(p, ALG->constant(kq)), 3); c2 = sign_atom(ALG->sub(p, ALG->constant(kq - 1)), 4); }
        else { c1 = sign_atom(ALG->sub(p, ALG->constant(1)), 1); c2 = sign_atom(ALG->add(p, ALG->constant(1)), 4); }
        bool t1 = truth(c1);
        if (t1 && truth(c2)) return Val::I(mask_w((int64_t)k, w));
        if (!MODEL_OK) ensure_model();
    }
    engine_error("real_to_int");
}
static Val cast_op(unsigned op, const Val &v, Type *from, Type *to) {
    if (auto *vt = dyn_cast<FixedVectorType>(to); vt && op != Instruction::BitCast) {
        std::vector<Val> r;
        for (unsigned k = 0; k < vt->getNumElements(); k++) r.push_back(cast_op(op, v.k == K::Undef ? v : v.agg()[k], cast<FixedVectorType>(from)->getElementType(), vt->getElementType()));
        return Val::A(r);
    }
    unsigned wf = from->isIntegerTy() ? from->getIntegerBitWidth() : 64, wt = to->isIntegerTy() ? to->getIntegerBitWidth() : 64;
    if (v.k == K::Undef) {
        if (op == Instruction::Trunc && wt <= 64 && v.um) {
            unsigned m = (1u << (wt + 7) / 8) - 1;
            if ((v.um & m) == m) return Val::I(mask_w(v.i, wt));
            Val r = v;
            r.um &= m;
            return r;
        }
        if (op == Instruction::IntToPtr || op == Instruction::PtrToInt) return v;
        return Val();
    }
    switch (op) {
    case Instruction::Trunc:
        if (v.k == K::Wide) return cast_op(op, v.agg()[0], Type::getInt64Ty(MOD->getContext()), to);
        if (v.k == K::Int) return Val::I(mask_w(v.i, wt));
        if (v.k == K::RBits) { if (wt == 64) return v; engine_error("trunc of symbolic real bits"); }
        { z3::expr e = v.e().extract(wt - 1, 0); return wt == 1 ? Val::S(e == ZC->bv_val(1, 1)) : Val::S(e); }
    case Instruction::ZExt:
        if (wt > 64 && v.k != K::Int) { Val r = Val::A({v, Val::I(0)}); r.k = K::Wide; return r; }
        if (v.k == K::Int) return Val::I(mask_w(v.i, wf));
        if (wf == 1) return Val::S(z3::ite(v.e(), ZC->bv_val(1, wt), ZC->bv_val(0, wt)));
        return Val::S(z3::zext(v.e(), wt - wf));
    case Instruction::SExt:
        if (v.k == K::Int) {
            if (wt > 64) { int64_t s = sx_w(mask_w(v.i, wf), wf); Val r = Val::A({Val::I(s), Val::I(s < 0 ? ~0ull : 0)}); r.k = K::Wide; return r; }
            return Val::I(mask_w(sx_w(mask_w(v.i, wf), wf), wt));
        }
        if (wf == 1) return Val::S(z3::ite(v.e(), ZC->bv_val((uint64_t)mask_w(~0ull, wt), wt), ZC->bv_val(0, wt)));
        return Val::S(z3::sext(v.e(), wt - wf));
    case Instruction::PtrToInt: case Instruction::IntToPtr: return v.k == K::Int ? Val::I(mask_w(v.i, wt)) : v;
    case Instruction::BitCast:
        if (from->isDoubleTy() && to->isIntegerTy(64)) {
            if (v.k == K::Dbl) { uint64_t u; memcpy(&u, &v.d, 8); return Val::I(u); }
            Val r = v; r.k = K::RBits; return r;
        }
        if (from->isIntegerTy(64) && to->isDoubleTy()) {
            if (v.k == K::Int) { double d; memcpy(&d, &v.i, 8); return Val::D(d); }
            if (v.k == K::RBits) { Val r = v; r.k = K::Real; return r; }
            engine_error("symbolic int bits to double");
        }
        if (from->isFloatTy() && to->isIntegerTy(32) && v.k == K::Dbl) { float f = v.d; uint32_t u; memcpy(&u, &f, 4); return Val::I(u); }
        if (from->isIntegerTy(32) && to->isFloatTy() && v.k == K::Int) { float f; uint32_t u = v.i; memcpy(&f, &u, 4); return Val::D(f); }
        if (from == to || (from->isPointerTy() && to->isPointerTy())) return v;
        if (from->isVectorTy() && to->isVectorTy() && cast<FixedVectorType>(from)->getNumElements() == cast<FixedVectorType>(to)->getNumElements()) {
            std::vector<Val> r;
            for (auto &x : v.agg()) r.push_back(cast_op(op, x, cast<FixedVectorType>(from)->getElementType(), cast<FixedVectorType>(to)->getElementType()));
            return Val::A(r);
        }
        { // through memory
            uint64_t n = DL->getTypeStoreSize(from), t = alloc_obj(n, 2, "bitcast");
            store_ty(from, t, v);
            Val r = load_ty(to, t);
            return r;
        }
    case Instruction::FPExt: return v;
    case Instruction::FPTrunc: return v.k == K::Dbl ? Val::D((float)v.d) : v;
    case Instruction::SIToFP: { int64_t x = sx_w(concretize(v, wf), wf); return Val::D(to->isFloatTy() ? (float)x : (double)x); }
    case Instruction::UIToFP: { uint64_t x = mask_w(concretize(v, wf), wf); return Val::D(to->isFloatTy() ? (float)x : (double)x); }
    case Instruction::FPToSI: case Instruction::FPToUI:
        if (v.k == K::Dbl) {
            if (!std::isfinite(v.d)) return Val();
            if (op == Instruction::FPToUI && v.d >= 9.2e18) return Val::I((uint64_t)v.d);
            return Val::I(mask_w((int64_t)v.d, wt));
        }
        return real_to_int(v, wt);
    }
    engine_error("cast");
}

// ------------------------------------------------------------------ builtins
enum BI { B_NONE = -1, B_SXINT, B_SXCHOICE, B_SXREAL, B_SXREALR, B_NDCHOICE, B_NDREAL, B_ASSUME, B_CHECK, B_CHECKEQ, B_CHECKLE, B_CONC, B_REACH, B_FAIL, B_PRUNE, B_PARAM, B_LIVE, B_VSNPRINTF, B_SNPRINTF, B_TRACE, B_RANKS, B_BARRIER, B_TID, B_NTHR,
    B_MALLOC, B_CALLOC, B_FREE, B_NEW, B_NEWA, B_DEL, B_DELA, B_REALLOC, B_MATH1, B_POW, B_HYPOT, B_ABORT, B_THROWLIB, B_CXATHROW, B_CXAALLOC, B_CXABEGIN, B_CXAEND, B_CXARETHROW, B_NOP, B_NOP0,
    B_KFORK, B_KGTN, B_KDINIT, B_KDNEXT, B_KSTATIC, B_KCRIT, B_KENDCRIT, B_KBARRIER, B_OMPNT, B_OMPTN, B_PUSHNT, B_MEMCMP, B_STRLEN, B_ISSYM, B_READABLE, B_ISUNDEF, B_SAME, B_DBG, B_FMIN, B_FMAX, B_MEMCPY, B_MEMSET, B_ISREAL, B_CXAPURE, B_RACE, B_BLKSIZE, B_EXACT, B_THREADS };
static int OMP_N = 0;
static std::map<std::string, std::pair<int, int>> BMAP;
static std::vector<std::pair<std::string, double (*)(double)>> MATH1;
static void init_builtins() {
    auto m = [&](const char *n, int b) { BMAP[n] = {b, 0}; };
    m("sx_int", B_SXINT); m("sx_choice", B_SXCHOICE); m("sx_real", B_SXREAL); m("sx_real_in", B_SXREALR); m("sx_nd_choice", B_NDCHOICE); m("sx_nd_real", B_NDREAL);
    m("sx_assume", B_ASSUME); m("sx_check", B_CHECK); m("sx_check_eq", B_CHECKEQ); m("sx_check_le", B_CHECKLE); m("sx_conc", B_CONC); m("sx_reach", B_REACH); m("sx_fail", B_FAIL); m("sx_prune", B_PRUNE);
    m("sx_param", B_PARAM); m("sx_live", B_LIVE); m("sx_trace", B_TRACE); m("sx_run_ranks", B_RANKS); m("sx_barrier", B_BARRIER); m("sx_tid", B_TID); m("sx_nthreads", B_NTHR); m("sx_is_sym", B_ISSYM); m("sx_readable", B_READABLE); m("sx_is_undef", B_ISUNDEF); m("sx_same", B_SAME); m("sx_dbg", B_DBG); m("sx_is_real", B_ISREAL); m("sx_race", B_RACE); m("sx_block_size", B_BLKSIZE); m("sx_exact_arithmetic", B_EXACT); m("sx_threads", B_THREADS);
    m("malloc", B_MALLOC); m("calloc", B_CALLOC); m("free", B_FREE); m("realloc", B_REALLOC); m("_Znwm", B_NEW); m("_Znam", B_NEWA); m("_ZnwmRKSt9nothrow_t", B_NEW); m("_ZnamRKSt9nothrow_t", B_NEWA); m("_ZnwmSt11align_val_t", B_NEW); m("_ZnamSt11align_val_t", B_NEWA);
    m("_ZdlPv", B_DEL); m("_ZdlPvm", B_DEL); m("_ZdaPv", B_DELA); m("_ZdaPvm", B_DELA); m("_ZdlPvSt11align_val_t", B_DEL); m("_ZdlPvmSt11align_val_t", B_DEL); m("_ZdaPvSt11align_val_t", B_DELA);m("_ZdlPvRKSt9nothrow_t", B_DEL);m("_ZdaPvRKSt9nothrow_t", B_DELA);
    m("pow", B_POW); m("powf", B_POW); m("hypot", B_HYPOT); m("hypotf", B_HYPOT); m("fmin", B_FMIN); m("fmax", B_FMAX); m("fminf", B_FMIN); m("fmaxf", B_FMAX);
    for (auto n : {"abort", "exit", "_exit", "__assert_fail", "_ZSt9terminatev", "__clang_call_terminate", "__stack_chk_fail"}) m(n, B_ABORT);
    m("__cxa_pure_virtual", B_CXAPURE);
    m("__cxa_throw", B_CXATHROW); m("__cxa_allocate_exception", B_CXAALLOC); m("__cxa_begin_catch", B_CXABEGIN); m("__cxa_end_catch", B_CXAEND); m("__cxa_rethrow", B_CXARETHROW); m("__cxa_free_exception", B_NOP); m("__cxa_get_exception_ptr", B_CXABEGIN);
    m("__cxa_atexit", B_NOP0); m("__kmpc_fork_call", B_KFORK); m("__kmpc_global_thread_num", B_KGTN); m("omp_get_thread_num", B_OMPTN); m("omp_get_num_threads", B_OMPNT); m("omp_get_max_threads", B_OMPNT); m("omp_in_parallel", B_NOP0);
    m("__kmpc_dispatch_init_4", B_KDINIT); m("__kmpc_dispatch_init_4u", B_KDINIT); m("__kmpc_dispatch_init_8", B_KDINIT); m("__kmpc_dispatch_init_8u", B_KDINIT); BMAP["__kmpc_dispatch_init_8"].second = BMAP["__kmpc_dispatch_init_8u"].second = 8;
    m("__kmpc_dispatch_next_4", B_KDNEXT); m("__kmpc_dispatch_next_4u", B_KDNEXT); m("__kmpc_dispatch_next_8", B_KDNEXT); m("__kmpc_dispatch_next_8u", B_KDNEXT); BMAP["__kmpc_dispatch_next_8"].second = BMAP["__kmpc_dispatch_next_8u"].second = 8;
    m("__kmpc_for_static_init_4", B_KSTATIC); m("__kmpc_for_static_init_4u", B_KSTATIC); m("__kmpc_for_static_init_8", B_KSTATIC); m("__kmpc_for_static_init_8u", B_KSTATIC); BMAP["__kmpc_for_static_init_8"].second = BMAP["__kmpc_for_static_init_8u"].second = 8;
    m("__kmpc_for_static_fini", B_NOP); m("__kmpc_dispatch_fini_4", B_NOP); m("__kmpc_dispatch_fini_8", B_NOP);m("__kmpc_dispatch_deinit", B_NOP);
    m("__kmpc_critical", B_KCRIT); m("__kmpc_critical_with_hint", B_KCRIT); m("__kmpc_end_critical", B_KENDCRIT); m("__kmpc_barrier", B_KBARRIER); m("__kmpc_push_num_threads", B_NOP);
    m("omp_set_num_threads", B_NOP); m("omp_init_lock", B_NOP);
    m("vsnprintf", B_VSNPRINTF); m("snprintf", B_SNPRINTF);
    m("memcmp", B_MEMCMP); m("bcmp", B_MEMCMP); m("strlen", B_STRLEN); m("memcpy", B_MEMCPY); m("memmove", B_MEMCPY); m("memset", B_MEMSET);
    auto f1 = [&](const char *n, double (*f)(double)) { BMAP[n] = {B_MATH1, (int)MATH1.size()}; MATH1.push_back({n, f}); BMAP[std::string(n) + "f"] = {B_MATH1, (int)MATH1.size()}; MATH1.push_back({n, f}); };
    f1("sqrt", std::sqrt); f1("fabs", std::fabs); f1("exp", std::exp); f1("log", std::log); f1("log2", std::log2); f1("log10", std::log10); f1("floor", std::floor); f1("ceil", std::ceil); f1("round", std::round); f1("trunc", std::trunc); f1("cos", std::cos); f1("sin", std::sin); f1("acos", std::acos); f1("asin", std::asin); f1("atan", std::atan); f1("tan", std::tan); f1("cbrt", std::cbrt); f1("exp2", std::exp2); f1("rint", std::rint); f1("nearbyint", std::nearbyint);
}
static int builtin_id(const std::string &n) {
    auto it = BMAP.find(n);
    if (it != BMAP.end()) return it->second.first;
    if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) return B_THROWLIB;
    return -1;
}

static Thread *TH;
static const Val &R_(const Frame &f, int32_t r) { return r >= 0 ? f.regs[r] : POOL[-r - 1]; }
static std::string demangle(const std::string &s);
#include <cxxabi.h>
static std::string demangle(const std::string &s) {
    int st;
    char *d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
    if (!d) return s;
    std::string r = d;
    free(d);
    return r;
}
static std::string g_where() {
    std::string s;
    if (THR.empty() || CUR >= (int)THR.size()) return s;
    int n = 0;
    for (auto it = THR[CUR]->st.rbegin(); it != THR[CUR]->st.rend() && n < 6; ++it, n++) {
        std::string d = demangle(it->fn->F->getName().str());
        auto p = d.find('(');
        if (p != std::string::npos && p > 0) d = d.substr(0, p);
        if (d.size() > 150) d = d.substr(0, 150);
        s += (n ? " < " : "") + d;
    }
    return s;
}

static uint64_t EXC_PTR = 0, EXC_TI = 0;
static bool EXC_LIB = false;

static std::map<uint64_t, std::vector<Val>> VALISTS;
// printf-style formatting of concrete arguments
static std::string format_args(const std::string &f, const std::vector<Val> &va) {
    std::string o;
    size_t q = 0;
    for (size_t k = 0; k < f.size(); k++) {
        if (f[k] != '%') { o += f[k]; continue; }
        std::string sp = "%";
        k++;
        while (k < f.size() && strchr("-+ #0123456789.*", f[k])) {
            if (f[k] == '*') { if (q >= va.size()) engine_error("format"); sp += std::to_string((int)concretize(va[q++], 32)); } else sp += f[k];
            k++;
        }
        bool l = false;
        while (k < f.size() && strchr("lzhjt", f[k])) { l = l || f[k] != 'h'; k++; }
        if (k >= f.size()) engine_error("format");
        char c = f[k], buf[512];
        if (c == '%') { o += c; continue; }
        if (q >= va.size()) engine_error("too few arguments for a format");
        const Val &v = va[q++];
        if (strchr("fFeEgG", c)) {
            if (v.k != K::Dbl) engine_error("printing a symbolic number");
            snprintf(buf, sizeof buf, (sp + c).c_str(), v.d);
        } else if (strchr("di", c)) snprintf(buf, sizeof buf, (sp + "ld").c_str(), l ? (long)concretize(v, 64) : (long)(int)concretize(v, 32));
        else if (strchr("uxXo", c)) snprintf(buf, sizeof buf, (sp + "l" + c).c_str(), l ? concretize(v, 64) : (unsigned long)(unsigned)concretize(v, 32));
        else if (c == 'c') snprintf(buf, sizeof buf, (sp + c).c_str(), (int)concretize(v, 32));
        else if (c == 's') { o += read_cstr(concretize(v, 64)); continue; }
        else engine_error("format");
        o += buf;
    }
    return o;
}
static void push_call(const Function *F, std::vector<Val> args, int32_t dst, const Ins *ci) {
    Fn *fn = decode(F);
    Frame fr;
    fr.fn = fn;
    fr.regs.resize(fn->nregs);
    for (size_t k = 0; k < args.size() && k < F->arg_size(); k++) fr.regs[k] = std::move(args[k]);
    for (size_t k = F->arg_size(); k < args.size() && F->isVarArg(); k++) fr.va.push_back(std::move(args[k]));
    fr.retdst  = dst;
    fr.callIns = ci;
    if (TH->st.size() > 3000) violation("runaway recursion", "memory");
    TH->st.push_back(std::move(fr));
}
static void goto_blk(Frame &f, int to) {
    Blk &B  = f.fn->blks[to];
    auto it = B.in.find(f.blk);
    if (it != B.in.end()) {
        auto &mv = it->second.moves;
        if (mv.size() == 1) f.regs[mv[0].first] = R_(f, mv[0].second);
        else {
            std::vector<Val> tmp;
            tmp.reserve(mv.size());
            for (auto &m : mv) tmp.push_back(R_(f, m.second));
            for (size_t k = 0; k < mv.size(); k++) f.regs[mv[k].first] = std::move(tmp[k]);
        }
    }
    f.blk = to;
    f.pc  = 0;
}
static void kill_allocas(Frame &f) {
    for (auto a : f.allocas) {
        auto it = OBJ.find(a);
        if (it != OBJ.end()) { if (lastObj == it->second.get()) lastObj = nullptr; OBJ.erase(it); }
    }
}
static void do_throw() {
    while (!TH->st.empty()) {
        Frame &f = TH->st.back();
        const Ins &in = f.fn->blks[f.blk].ins[f.pc];
        if (in.op == Instruction::Invoke) { goto_blk(f, in.succ1); return; }
        kill_allocas(f);
        TH->st.pop_back();
    }
    violation("uncaught exception", "exception");
}
// OMP loop descriptors
struct OmpLoop { int64_t lb, ub, st; int pattern; };
static std::map<std::pair<int, int>, int> OMP_PATTERN; // (team, loop#) -> pattern
static std::map<int, int> OMP_LOOPCNT;                 // thread -> loop#
struct OmpCur { int64_t next, ub, st; int pattern; int64_t n; int64_t lb; };
static std::map<int, OmpCur> OMP_CUR;
static int nd_choice(int n) {
    if (n <= 1) return 0;
    uint32_t id = IVARS->size();
    z3::expr e  = ZC->bv_const(("nd" + std::to_string(id)).c_str(), 32);
    IVARS->push_back({"nd" + std::to_string(id), e, 32, 0});
    (*INTID)[e.id()] = id;
    assume(z3::ult(e, ZC->bv_val(n, 32)));
    return (int)concretize(Val::S(e), 32);
}
static int ilog2(int64_t n) { int k = 0; while ((1ll << k) < n) k++; return k; }
static int64_t omp_owner(int pattern, int64_t idx) {
    if (pattern == 0) return 0;
    if (pattern == 1) return 1;
    int b = (pattern - 2) / 2;
    int64_t o = (idx >> b) & 1;
    return (pattern & 1) ? 1 - o : o;
}
static int spawn_team(int n, bool omp) {
    Team tm;
    tm.parent = CUR;
    tm.omp    = omp;
    int id    = TEAMS.size();
    for (int k = 0; k < n; k++) {
        auto t  = std::make_unique<Thread>();
        t->tid  = k;
        t->team = id;
        tm.members.push_back(THR.size());
        t->rid = (int)THR.size();
        THR.push_back(std::move(t));
    }
    TEAMS.push_back(tm);
    return id;
}
static void yield_next() { // choose the next runnable thread
    for (;;) {
        // any runnable?
        for (size_t k = 0; k < THR.size(); k++) if (THR[k]->state == 0) { CUR = k; TH = THR[k].get(); return; }
        // release barriers
        bool progress = false;
        for (size_t ti = 0; ti < TEAMS.size(); ti++) {
            auto &tm = TEAMS[ti];
            if (tm.members.empty()) continue; // already joined
            int nb = 0, nd = 0;
            for (int m : tm.members) { if (THR[m]->state == 1) nb++; if (THR[m]->state == 2) nd++; }
            if (nd == (int)tm.members.size()) {
                if (THR[tm.parent]->state == 3) {
                    THR[tm.parent]->state = 0;
                    if (tm.omp && !tm.nested) { RACE_ON = false; RACE.clear(); }
                    tm.members.clear();
                    progress = true;
                }
                continue;
            }
            if (nb > 0 && nb + nd == (int)tm.members.size()) {
                if (nd > 0 && nb > 0) { CUR = tm.members[0]; for (int m : tm.members) if (THR[m]->state == 1) CUR = m; TH = THR[CUR].get(); violation("deadlock: a collective operation is not entered by all processes", "deadlock"); }
                for (int m : tm.members) THR[m]->state = 0;
                if (tm.omp && !tm.nested) RACE.clear();
                progress = true;
            }
        }
        if (!progress) return; // nothing left
    }
}
static Val mk_real_input(const std::string &name, bool nd) {
    uint32_t v = ALG->new_var(nd ? VK::Nd : VK::Base, name);
    static const int pat[] = {3, -2, 5, 7, -4, 1, -6, 2, 9, -3, 4, -1, 8, -5, 6, 11};
    ALG->vars[v].val = mpq_class(pat[(v * 7 + OPT.seed * 3) % 16], (v % 3 == 2) ? 2 : 1);
    ALG->vars[v].val->canonicalize();
    INPUTS.push_back({1, nd ? std::string("ndr") : name, v, 0});
    return Val::R(ALG->var(v));
}
static Val math1(const std::string &n, double (*f)(double), const Val &a) {
    if (a.k == K::Undef) return a;
    if (a.k == K::Dbl) return Val::D(f(a.d));
    if (n == "sqrt") return fsqrt(a);
    if (n == "fabs") return fabs_(a);
    if (n == "acos" || n == "cos" || n == "sin" || n == "exp" || n == "log" || n == "log2" || n == "log10" || n == "asin" || n == "atan" || n == "tan") {
        // uninterpreted: same argument, same value
        static std::map<std::string, uint32_t> UF;
        std::string k = n + ALG->key(a.r());
        auto it = UF.find(k);
        if (it != UF.end()) return Val::R(ALG->var(it->second));
        Val v = mk_real_input(n, true);
        UF[k] = v.r()->t.empty() ? 0 : ALG->monos[v.r()->t[0].first][0].first;
        // refine using knowledge of the range
        if (n == "cos" || n == "sin") { assume(sign_atom(ALG->sub(v.r(), ALG->one), 3).k == K::SInt ? sign_atom(ALG->sub(v.r(), ALG->one), 3).e() : ZC->bool_val(true)); Val w = sign_atom(ALG->add(v.r(), ALG->one), 6); if (w.k == K::SInt) assume(w.e()); }
        return v;
    }
    engine_error("math function " + n + " on a symbolic real");
}
// executes a builtin; returns true if the call is complete (result in out), false if frames were changed
static bool exec_builtin(int b, const Ins &in, Frame &f, Val &out) {
    auto A = [&](int k) -> const Val & { return R_(f, in.a[k]); };
    auto C = [&](int k, unsigned w = 64) -> uint64_t { return concretize(R_(f, in.a[k]), w); };
    auto free_obj = [&](uint64_t p, int want, const char *nm) {
        if (!p) return;
        Obj *o = find_obj(p);
        if (!o || o->base != p || !(o->kind == 1 || o->kind == 3 || o->kind == 4)) violation(std::string(nm) + " of a pointer that is not the start of a heap block", "memory");
        if (o->freed) violation(std::string("double free (") + nm + ")", "memory");
        if (o->kind != want) violation(std::string("mismatched deallocation: ") + nm + " on a block from " + o->what, "memory");
        o->freed = true;
        LIVE_HEAP.erase(p);
        if (RACE_ON) race_access(p, std::min<uint64_t>(o->size, 8), true);
        o->data = {}; o->st = {}; o->cells.clear();
    };
    auto do_alloc = [&](uint64_t n, int kind, const char *nm, bool z) {
        if (n > (1ull << 31)) { violation("allocation of an absurd size " + std::to_string(n), "memory"); }
        uint64_t p = alloc_obj(n, kind, nm, z);
        LIVE_HEAP.insert(p);
        return p;
    };
    switch (b) {
    case B_SXINT: {
        std::string nm = read_cstr(C(0));
        int64_t lo = sx_w(C(1, 32), 32), hi = sx_w(C(2, 32), 32);
        if (lo == hi) { INPUTS.push_back({2, nm, 0, lo}); out = Val::I(mask_w(lo, 32)); return true; }
        if (lo > hi) endpath(1);
        uint32_t id = IVARS->size();
        z3::expr e  = ZC->bv_const((nm + "#" + std::to_string(id)).c_str(), 32);
        IVARS->push_back({nm, e, 32, (uint64_t)(uint32_t)lo});
        (*INTID)[e.id()] = id;
        INPUTS.push_back({0, nm, id, 0});
        assume(e >= ZC->bv_val((int)lo, 32));
        assume(e <= ZC->bv_val((int)hi, 32));
        out = Val::S(e);
        return true;
    }
    case B_SXCHOICE: {
        std::string nm = read_cstr(C(0));
        int n = C(1, 32);
        if (n <= 0) endpath(1);
        int k = nd_choice(n);
        INPUTS.push_back({2, nm, 0, k});
        out = Val::I(k);
        return true;
    }
    case B_SXREAL: out = mk_real_input(read_cstr(C(0)), false); return true;
    case B_SXREALR: {
        out = mk_real_input(read_cstr(C(0)), false);
        PolyP p = out.r();
        const Val &lo = A(1), &hi = A(2);
        uint32_t v = ALG->vars.size() - 1;
        mpq_class l(lo.d), h(hi.d);
        mpq_class mid = (l + h) / 2;
        if (*ALG->vars[v].val < l || *ALG->vars[v].val > h) ALG->vars[v].val = mid;
        Val a1 = sign_atom(ALG->sub(p, ALG->constant(l)), 6), a2 = sign_atom(ALG->sub(p, ALG->constant(h)), 3);
        if (a1.k == K::SInt) assume(a1.e());
        if (a2.k == K::SInt) assume(a2.e());
        return true;
    }
    case B_NDCHOICE: {
        int k = nd_choice(C(0, 32));
        INPUTS.push_back({2, "ndc", 0, k});
        out = Val::I(k);
        return true;
    }
    case B_NDREAL: out = mk_real_input("nd", true); return true;
    case B_ASSUME: {
        const Val &v = A(0);
        if (v.k == K::Int) { if (!mask_w(v.i, 32)) endpath(1); return true; }
        if (v.k == K::Undef) violation("assumption on an uninitialised value", "uninit");
        z3::expr e = nonzero(v.e());
        if (e.is_not() && ATOMS->count(e.arg(0).id()) && !ATOMS->count(e.id())) { AtomInfo a = ATOMS->find(e.arg(0).id())->second.second; a.mask = 7 & ~a.mask; register_atom(e, a); }
        assume(e);
        return true;
    }
    case B_CHECK: {
        std::string msg = read_cstr(C(1));
        Val v = A(0);
        if (v.k == K::SInt && !v.e().is_bool()) { z3::expr e = nonzero(v.e()); v = Val::S(e); }
        else if (v.k == K::Int) v = Val::I(mask_w(v.i, 32) != 0);
        check_bool(v, msg);
        return true;
    }
    case B_CHECKEQ: check_eq(A(0), A(1), read_cstr(C(2))); return true;
    case B_CHECKLE: {
        std::string msg = read_cstr(C(2));
        Val a = A(0), b2 = A(1);
        if (a.k == K::Undef || b2.k == K::Undef) violation(msg + " (uninitialised value)", "uninit");
        if (a.k == K::Dbl && b2.k == K::Dbl) { // tolerance for concrete rounding
            check_bool(Val::I(a.d <= b2.d + 1e-9 * std::max(1., std::fabs(b2.d))), msg);
            return true;
        }
        if ((a.k == K::Dbl && !std::isfinite(a.d)) || (b2.k == K::Dbl && !std::isfinite(b2.d))) check_bool(fcmp(CmpInst::FCMP_OLE, a, b2), msg);
        else check_bool(sign_atom(denoised(a, b2), 3), msg);
        return true;
    }
    case B_CONC: out = Val::I(concretize(A(0), 32)); return true;
    case B_REACH: {
        std::string nm = read_cstr(C(0));
        int n = SH->nreach;
        int k;
        for (k = 0; k < n; k++) if (nm == SH->reachname[k]) break;
        if (k == n) { shlock(); n = SH->nreach; for (k = 0; k < n; k++) if (nm == SH->reachname[k]) break; if (k == n && n < 64) { strncpy(SH->reachname[k], nm.c_str(), 95); SH->nreach++; } shunlock(); }
        if (k < 64) SH->reach[k]++;
        return true;
    }
    case B_FAIL: violation(read_cstr(C(0)), "check");
    case B_PRUNE: endpath(1);
    case B_PARAM: {
        std::string nm = read_cstr(C(0));
        auto it = OPT.params.find(nm);
        out = Val::I(it == OPT.params.end() ? C(1, 32) : (uint32_t)it->second);
        return true;
    }
    case B_LIVE: out = Val::I(LIVE_HEAP.size()); return true;
    case B_TRACE: {
        std::string s = read_cstr(C(0)) + "=";
        const Val &v = A(1);
        if (v.k == K::Int) s += std::to_string(sx_w(v.i, 32)); else if (v.k == K::SInt) s += v.e().to_string(); else s += "?";
        TRACE.push_back(s);
        return true;
    }
    case B_DBG: {
        const Val &v = A(1);
        std::string s = v.k == K::Dbl ? std::to_string(v.d) : v.k == K::Real ? show(v.r()) : v.k == K::Undef ? "undef" : "?";
        fprintf(stderr, "[dbg] %s %s\n", read_cstr(C(0)).c_str(), s.c_str());
        return true;
    }
    case B_THREADS: OMP_N = (int)C(0, 32); return true;
    case B_EXACT: { EXACT = A(0).i != 0; return true; }
    case B_ISSYM: { out = Val::I(A(0).k == K::Real || A(0).k == K::SInt); return true; }
    case B_ISUNDEF: { out = Val::I(A(0).k == K::Undef); return true; }
    case B_SAME: { // structural equality of two reals without forking
        const Val &a = A(0), &b2 = A(1);
        if (a.k == K::Undef || b2.k == K::Undef) { out = Val::I(0); return true; }
        if (a.k == K::Dbl && b2.k == K::Dbl) { out = Val::I(a.d == b2.d); return true; }
        out = Val::I(ALG->sub(polyof(a), polyof(b2))->is_zero());
        return true;
    }
    case B_RACE: out = Val::I(RACE_ON); RACE_ON = C(0, 32) != 0; RACE.clear(); return true;
    case B_READABLE: { // is [p,p+n) a valid live range
        uint64_t p = C(0), n = C(1);
        Obj *o = find_obj(p);
        out = Val::I(n == 0 || (o && !o->freed && p >= o->base && p + n <= o->base + o->size));
        return true;
    }
    case B_BLKSIZE: { uint64_t p = C(0); Obj *o = p ? find_obj(p) : nullptr; out = Val::I(o && !o->freed ? o->base + o->size - p : 0); return true; }
    case B_RANKS: {
        int n = C(0, 32);
        uint64_t fp = C(1);
        Val arg = A(2);
        const Function *F = AFN.at(fp);
        int me = CUR;
        int id = spawn_team(n, false);
        THR[me]->state = 3;
        if (in.op == Instruction::Invoke) goto_blk(f, in.succ0); else f.pc++;
        for (int k = 0; k < n; k++) {
            CUR = TEAMS[id].members[k];
            TH  = THR[CUR].get();
            push_call(F, {Val::I(k), arg}, -1, nullptr);
        }
        CUR = me; TH = THR[me].get();
        yield_next();
        return false;
    }
    case B_BARRIER: case B_KBARRIER: {
        if (in.op == Instruction::Invoke) goto_blk(f, in.succ0); else f.pc++;
        if (TH->team < 0) return false;
        TH->state = 1;
        yield_next();
        return false;
    }
    case B_TID: out = Val::I(TH->team >= 0 ? TH->tid : 0); return true;
    case B_NTHR: out = Val::I(TH->team >= 0 ? TEAMS[TH->team].members.size() : 1); return true;
    case B_MALLOC: out = Val::I(do_alloc(C(0), 1, "malloc", false)); return true;
    case B_CALLOC: out = Val::I(do_alloc(C(0) * C(1), 1, "malloc", true)); return true;
    case B_REALLOC: {
        uint64_t p = C(0), n = C(1), q = do_alloc(n, 1, "malloc", false);
        if (p) { Obj *o = find_obj(p); if (!o || o->freed || o->base != p) violation("realloc of a bad pointer", "memory"); mem_copy(q, p, std::min(n, o->size)); free_obj(p, 1, "realloc"); }
        out = Val::I(q);
        return true;
    }
    case B_NEW: out = Val::I(do_alloc(C(0), 3, "operator new", false)); return true;
    case B_NEWA: out = Val::I(do_alloc(C(0), 4, "operator new[]", false)); return true;
    case B_FREE: free_obj(C(0), 1, "free"); return true;
    case B_DEL: free_obj(C(0), 3, "operator delete"); return true;
    case B_DELA: free_obj(C(0), 4, "operator delete[]"); return true;
    case B_MATH1: { auto &mm = MATH1[BMAP[in.callee->getName().str()].second]; out = math1(mm.first, mm.second, A(0)); if (out.k == K::Dbl && in.ty->isFloatTy()) out.d = (float)out.d; return true; }
    case B_POW: {
        const Val &x = A(0), &y = A(1);
        if (x.k == K::Undef || y.k == K::Undef) return true;
        if (x.k == K::Dbl && y.k == K::Dbl) { out = Val::D(std::pow(x.d, y.d)); return true; }
        if (y.k == K::Dbl && y.d == std::floor(y.d) && std::fabs(y.d) < 20) {
            Val r = Val::D(1);
            for (int k = 0; k < std::fabs(y.d); k++) r = fp_bin(Instruction::FMul, r, x, false);
            if (y.d < 0) r = fp_bin(Instruction::FDiv, Val::D(1), r, false);
            out = r;
            return true;
        }
        if (y.k == K::Dbl && y.d == 0.5) { out = fsqrt(x); return true; }
        engine_error("pow symbolic");
    }
    case B_HYPOT: {
        Val a2 = fp_bin(Instruction::FMul, A(0), A(0), false), b2 = fp_bin(Instruction::FMul, A(1), A(1), false);
        if (A(0).k == K::Dbl && A(1).k == K::Dbl) out = Val::D(std::hypot(A(0).d, A(1).d));
        else if (A(1).k == K::Dbl && A(1).d == 0) out = fabs_(A(0));
        else if (A(0).k == K::Dbl && A(0).d == 0) out = fabs_(A(1));
        else out = fsqrt(fp_bin(Instruction::FAdd, a2, b2, false));
        return true;
    }
    case B_FMIN: case B_FMAX: {
        Val c = fcmp(b == B_FMIN ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, A(0), A(1));
        out = truth(c) ? A(0) : A(1);
        return true;
    }
    case B_ABORT: violation("program aborts (" + in.callee->getName().str() + ")", "abort");
    case B_CXAPURE: violation("pure virtual call", "abort");
    case B_THROWLIB: { EXC_LIB = true; EXC_TI = 0; EXC_PTR = alloc_obj(16, 1, "exception", true); TRACE.push_back("exception " + demangle(in.callee->getName().str())); do_throw(); return false; }
    case B_CXATHROW: EXC_LIB = false; EXC_PTR = C(0); EXC_TI = C(1); TRACE.push_back("exception thrown in " + demangle(f.fn->F->getName().str())); do_throw(); return false;
    case B_CXARETHROW: do_throw(); return false;
    case B_CXAALLOC: out = Val::I(alloc_obj(C(0), 1, "exception", true)); return true;
    case B_CXABEGIN: out = A(0); return true;
    case B_CXAEND: case B_NOP: return true;
    case B_NOP0: out = Val::I(0); return true;
    case B_KGTN: case B_OMPTN: out = Val::I(TH->team >= 0 && TEAMS[TH->team].omp ? TH->tid : 0); return true;
    case B_OMPNT: out = Val::I(TH->team >= 0 && TEAMS[TH->team].omp ? 2 : (in.callee->getName() == "omp_get_max_threads" ? 2 : 1)); return true;
    case B_KFORK: {
        int argc = C(1, 32);
        uint64_t fp = C(2);
        const Function *F = AFN.at(fp);
        int nthr = OMP_N ? OMP_N : OPT.params.count("omp_threads") ? OPT.params["omp_threads"] : 1;
        bool nested = TH->team >= 0 && TEAMS[TH->team].omp;
        if (nested) nthr = 1;
        std::vector<Val> args;
        for (int k = 0; k < argc; k++) args.push_back(A(3 + k));
        int me = CUR;
        int id = spawn_team(nthr, true);
        THR[me]->state = 3;
        if (in.op == Instruction::Invoke) goto_blk(f, in.succ0); else f.pc++;
        for (int k = 0; k < nthr; k++) {
            CUR = TEAMS[id].members[k];
            TH  = THR[CUR].get();
            uint64_t g = alloc_obj(4, 2, "gtid", true), bt = alloc_obj(4, 2, "btid", true);
            store_raw(g, 4, Val::I(k), false);
            store_raw(bt, 4, Val::I(0), false);
            std::vector<Val> aa{Val::I(g), Val::I(bt)};
            aa.insert(aa.end(), args.begin(), args.end());
            push_call(F, aa, -1, nullptr);
            OMP_LOOPCNT[CUR] = 0;
        }
        TEAMS[id].nested = nested;
        if (nested) { auto &m0 = *THR[TEAMS[id].members[0]]; m0.rid = THR[me]->rid; m0.held = THR[me]->held; }
        if (!nested) { RACE_ON = nthr > 1; RACE.clear(); }
        CUR = me; TH = THR[me].get();
        yield_next();
        return false;
    }
    case B_KDINIT: {
        unsigned w = BMAP[in.callee->getName().str()].second == 8 ? 64 : 32;
        OmpCur c;
        c.lb = sx_w(C(3, w), w); c.ub = sx_w(C(4, w), w); c.st = sx_w(C(5, w), w);
        c.next = c.lb;
        c.n    = c.st > 0 ? (c.ub - c.lb) / c.st + 1 : 0;
        if (c.ub < c.lb) c.n = 0;
        int ln = OMP_LOOPCNT[CUR]++;
        int nthr = TEAMS[TH->team].members.size();
        auto key = std::make_pair(TH->team, ln);
        if (nthr == 1 || c.n <= 0) c.pattern = 0;
        else {
            auto it = OMP_PATTERN.find(key);
            if (it == OMP_PATTERN.end()) {
                int np = 2 + 2 * ilog2(c.n);
                bool save = RACE_ON;
                int p = nd_choice(np);
                INPUTS.push_back({2, "ndp", 0, p});
                RACE_ON = save;
                OMP_PATTERN[key] = p;
                c.pattern = p;
                TRACE.push_back("omp loop " + std::to_string(ln) + " iterations " + std::to_string(c.n) + " schedule pattern " + std::to_string(p));
            } else c.pattern = it->second;
        }
        OMP_CUR[CUR] = c;
        return true;
    }
    case B_KDNEXT: {
        unsigned n = BMAP[in.callee->getName().str()].second == 8 ? 8 : 4;
        OmpCur &c = OMP_CUR[CUR];
        int nthr = TEAMS[TH->team].members.size();
        while (c.n > 0 && c.next <= c.ub && nthr > 1 && omp_owner(c.pattern, (c.next - c.lb) / c.st) != TH->tid) c.next += c.st;
        if (c.n <= 0 || c.next > c.ub) { out = Val::I(0); return true; }
        bool save = RACE_ON; RACE_ON = false;
        store_raw(C(2), 4, Val::I(c.next + c.st > c.ub), false);
        store_raw(C(3), n, Val::I(mask_w(c.next, n * 8)), false);
        store_raw(C(4), n, Val::I(mask_w(c.next, n * 8)), false);
        store_raw(C(5), n, Val::I(mask_w(c.st, n * 8)), false);
        RACE_ON = save;
        c.next += c.st;
        out = Val::I(1);
        return true;
    }
    case B_KSTATIC: {
        // (loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk)
        unsigned n = BMAP[in.callee->getName().str()].second == 8 ? 8 : 4;
        int nthr = TEAMS[TH->team].members.size(), tid = TH->tid;
        int sched = C(2, 32);
        bool save = RACE_ON; RACE_ON = false;
        int64_t lo = sx_w(load_raw(C(4), n, false).i, n * 8), up = sx_w(load_raw(C(5), n, false).i, n * 8);
        int64_t inc = sx_w(C(7, n * 8), n * 8), chunk = sx_w(C(8, n * 8), n * 8);
        int64_t cnt = up >= lo ? (up - lo) / inc + 1 : 0;
        if (sched == 33 && chunk > 0) {
            store_raw(C(4), n, Val::I(mask_w(lo + tid * chunk * inc, n * 8)), false);
            store_raw(C(5), n, Val::I(mask_w(lo + (tid * chunk + chunk - 1) * inc, n * 8)), false);
            store_raw(C(6), n, Val::I(mask_w(chunk * nthr * inc, n * 8)), false);
        } else {
            int64_t per = (cnt + nthr - 1) / nthr;
            int64_t l = lo + tid * per * inc, u = lo + std::min<int64_t>(cnt, (tid + 1) * per) * inc - inc;
            store_raw(C(4), n, Val::I(mask_w(l, n * 8)), false);
            store_raw(C(5), n, Val::I(mask_w(u, n * 8)), false);
            store_raw(C(6), n, Val::I(mask_w(cnt * inc, n * 8)), false);
        }
        store_raw(C(3), 4, Val::I(tid == nthr - 1), false);
        RACE_ON = save;
        return true;
    }
    case B_KCRIT: TH->held.push_back(C(2)); return true;
    case B_KENDCRIT: if (!TH->held.empty()) TH->held.pop_back(); return true;
    case B_MEMCMP: {
        uint64_t p = C(0), q = C(1), n = C(2);
        for (uint64_t k = 0; k < n; k++) {
            Val x = load_raw(p + k, 1, false), y = load_raw(q + k, 1, false);
            if (truth(icmp(CmpInst::ICMP_NE, x, y, 8))) { out = truth(icmp(CmpInst::ICMP_ULT, x, y, 8)) ? Val::I(0xffffffffull) : Val::I(1); return true; }
        }
        out = Val::I(0);
        return true;
    }
    case B_VSNPRINTF: case B_SNPRINTF: {
        std::vector<Val> va;
        if (b == B_VSNPRINTF) {
            auto it = VALISTS.find(C(3));
            if (it == VALISTS.end()) engine_error("unknown argument list");
            va = it->second;
        } else for (size_t k = 3; k < in.a.size(); k++) va.push_back(A(k));
        std::string r = format_args(read_cstr(C(2)), va);
        uint64_t p = C(0), n = C(1);
        for (uint64_t k = 0; n && k < r.size() + 1 && k < n; k++) store_raw(p + k, 1, Val::I(k == r.size() || k == n - 1 ? 0 : (uint8_t)r[k]), false);
        out = Val::I(r.size());
        return true;
    }
    case B_STRLEN: {
        uint64_t p = C(0), n = 0;
        for (;; n++) { Val x = load_raw(p + n, 1, false); if (truth(icmp(CmpInst::ICMP_EQ, x, Val::I(0), 8))) break; }
        out = Val::I(n);
        return true;
    }
    case B_MEMCPY: mem_copy(C(0), C(1), C(2)); out = A(0); return true;
    case B_MEMSET: mem_set(C(0), A(1), C(2)); out = A(0); return true;
    }
    engine_error("builtin " + std::to_string(b));
}
static bool exec_intrinsic(const Ins &in, Frame &f, Val &out) {
    auto A = [&](int k) -> const Val & { return R_(f, in.a[k]); };
    auto lanes = [&](std::function<Val(int)> g) {
        if (auto *vt = dyn_cast<FixedVectorType>(in.ty)) { std::vector<Val> r; for (unsigned k = 0; k < vt->getNumElements(); k++) r.push_back(g(k)); return Val::A(r); }
        return g(-1);
    };
    auto L = [&](int k, int l) -> Val { return l < 0 ? A(k) : (A(k).k == K::Undef ? Val() : A(k).agg()[l]); };
    bool flt = in.ty->isFloatTy() || (in.ty->isVectorTy() && in.ty->getScalarType()->isFloatTy());
    switch (in.iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        uint64_t n = concretize(A(2), 64);
        if (n) mem_copy(concretize(A(0), 64), concretize(A(1), 64), n);
        return true;
    }
    case Intrinsic::memset: { uint64_t n = concretize(A(2), 64); if (n) mem_set(concretize(A(0), 64), A(1), n); return true; }
    case Intrinsic::vastart: { // the variable arguments stay in the engine; the list names them by its address
        uint64_t a = concretize(A(0), 64);
        mem_set(a, Val::I(0), 24);
        VALISTS[a] = f.va;
        return true;
    }
    case Intrinsic::vaend: VALISTS.erase(concretize(A(0), 64)); return true;
    case Intrinsic::vacopy: VALISTS[concretize(A(0), 64)] = VALISTS[concretize(A(1), 64)]; return true;
    case Intrinsic::lifetime_start: {
        // contents become undefined
        uint64_t p = concretize(A(1), 64);
        Obj *o = find_obj(p);
        if (o && o->kind == 2 && !o->freed) { o->cells.clear(); std::fill(o->st.begin(), o->st.end(), 0); }
        return true;
    }
    case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation: return true;
    case Intrinsic::stacksave: out = Val::I(0); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: case Intrinsic::arithmetic_fence: case Intrinsic::threadlocal_address: out = A(0); return true;
    case Intrinsic::is_constant: out = Val::I(0); return true;
    case Intrinsic::objectsize: out = Val::I(~0ull); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation("trap reached", "abort");
    case Intrinsic::sqrt: out = lanes([&](int l) { Val v = fsqrt(L(0, l)); if (v.k == K::Dbl) v.d = f32(v.d, flt); return v; }); return true;
    case Intrinsic::fabs: out = lanes([&](int l) { return fabs_(L(0, l)); }); return true;
    case Intrinsic::fmuladd: case Intrinsic::fma: out = lanes([&](int l) { return fp_bin(Instruction::FAdd, fp_bin(Instruction::FMul, L(0, l), L(1, l), flt), L(2, l), flt); }); return true;
    case Intrinsic::floor: out = math1("floor", std::floor, A(0)); return true;
    case Intrinsic::ceil: out = math1("ceil", std::ceil, A(0)); return true;
    case Intrinsic::round: out = math1("round", std::round, A(0)); return true;
    case Intrinsic::trunc: out = math1("trunc", std::trunc, A(0)); return true;
    case Intrinsic::rint: out = math1("rint", std::rint, A(0)); return true;
    case Intrinsic::nearbyint: out = math1("nearbyint", std::nearbyint, A(0)); return true;
    case Intrinsic::exp: out = math1("exp", std::exp, A(0)); return true;
    case Intrinsic::exp2: out = math1("exp2", std::exp2, A(0)); return true;
    case Intrinsic::log: out = math1("log", std::log, A(0)); return true;
    case Intrinsic::log2: out = math1("log2", std::log2, A(0)); return true;
    case Intrinsic::log10: out = math1("log10", std::log10, A(0)); return true;
    case Intrinsic::cos: out = math1("cos", std::cos, A(0)); return true;
    case Intrinsic::sin: out = math1("sin", std::sin, A(0)); return true;
    case Intrinsic::pow: return exec_builtin(B_POW, in, f, out);
    case Intrinsic::powi: {
        int y = sx_w(concretize(A(1), 32), 32);
        Val r = Val::D(1);
        for (int k = 0; k < std::abs(y); k++) r = fp_bin(Instruction::FMul, r, A(0), flt);
        out = y < 0 ? fp_bin(Instruction::FDiv, Val::D(1), r, flt) : r;
        return true;
    }
    case Intrinsic::copysign: {
        const Val &x = A(0), &y = A(1);
        if (x.k == K::Undef || y.k == K::Undef) return true;
        bool neg = y.k == K::Dbl ? std::signbit(y.d) : truth(sign_atom(y.r(), 1));
        Val a = fabs_(x);
        out = neg ? neg_real(a) : a;
        return true;
    }
    case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: {
        bool mn = in.iid == Intrinsic::minnum || in.iid == Intrinsic::minimum;
        out = truth(fcmp(mn ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, A(0), A(1))) ? A(0) : A(1);
        return true;
    }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
        unsigned w = in.width;
        unsigned p = in.iid == Intrinsic::smax ? CmpInst::ICMP_SGT : in.iid == Intrinsic::smin ? CmpInst::ICMP_SLT : in.iid == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
        const Val &x = A(0), &y = A(1);
        if (x.k == K::Undef || y.k == K::Undef) return true;
        Val c = icmp(p, x, y, w);
        if (c.k == K::Int) out = c.i ? x : y;
        else out = Val::S(z3::ite(c.e(), bv_of(x, w), bv_of(y, w)));
        return true;
    }
    case Intrinsic::abs: {
        unsigned w = in.width;
        const Val &x = A(0);
        if (x.k == K::Undef) return true;
        if (x.k == K::Int) { int64_t s = sx_w(x.i, w); out = Val::I(mask_w(s < 0 ? -s : s, w)); }
        else out = Val::S(z3::ite(x.e() < ZC->bv_val(0, w), -x.e(), x.e()));
        return true;
    }
    case Intrinsic::ctlz: { uint64_t x = mask_w(concretize(A(0), in.width), in.width); int n = in.width; while (x) { n--; x >>= 1; } out = Val::I(n); return true; }
    case Intrinsic::cttz: { uint64_t x = mask_w(concretize(A(0), in.width), in.width); int n = 0; if (!x) n = in.width; else while (!(x & 1)) { n++; x >>= 1; } out = Val::I(n); return true; }
    case Intrinsic::ctpop: { uint64_t x = mask_w(concretize(A(0), in.width), in.width); out = Val::I(__builtin_popcountll(x)); return true; }
    case Intrinsic::bswap: { uint64_t x = concretize(A(0), in.width); x = __builtin_bswap64(x) >> (64 - in.width); out = Val::I(x); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned w = in.width;
        uint64_t x = mask_w(concretize(A(0), w), w), y = mask_w(concretize(A(1), w), w), s = concretize(A(2), w) % w;
        if (in.iid == Intrinsic::fshl) out = Val::I(s ? mask_w((x << s) | (y >> (w - s)), w) : x);
        else out = Val::I(s ? mask_w((x << (w - s)) | (y >> s), w) : y);
        return true;
    }
    case Intrinsic::usub_sat: { const Val &x = A(0), &y = A(1); if (x.k == K::Undef || y.k == K::Undef) return true; Val c = icmp(CmpInst::ICMP_UGE, x, y, in.width); out = truth(c) ? int_bin(Instruction::Sub, x, y, in.width) : Val::I(0); return true; }
    case Intrinsic::uadd_sat: { uint64_t x = concretize(A(0), in.width), y = concretize(A(1), in.width), r = mask_w(x + y, in.width); out = Val::I(r < x ? mask_w(~0ull, in.width) : r); return true; }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
        unsigned w = cast<StructType>(in.ty)->getElementType(0)->getIntegerBitWidth();
        uint64_t x = mask_w(concretize(A(0), w), w), y = mask_w(concretize(A(1), w), w);
        __int128 sr, sxx = sx_w(x, w), syy = sx_w(y, w);
        unsigned __int128 ur;
        bool ov = false; uint64_t r = 0;
        switch (in.iid) {
        case Intrinsic::umul_with_overflow: ur = (unsigned __int128)x * y; r = mask_w(ur, w); ov = ur != r; break;
        case Intrinsic::uadd_with_overflow: ur = (unsigned __int128)x + y; r = mask_w(ur, w); ov = ur != r; break;
        case Intrinsic::usub_with_overflow: r = mask_w(x - y, w); ov = x < y; break;
        case Intrinsic::smul_with_overflow: sr = sxx * syy; r = mask_w((uint64_t)sr, w); ov = sr != sx_w(r, w); break;
        case Intrinsic::sadd_with_overflow: sr = sxx + syy; r = mask_w((uint64_t)sr, w); ov = sr != sx_w(r, w); break;
        default: sr = sxx - syy; r = mask_w((uint64_t)sr, w); ov = sr != sx_w(r, w); break;
        }
        out = Val::A({Val::I(r), Val::I(ov)});
        return true;
    }
    case Intrinsic::eh_typeid_for: out = Val::I(mask_w(concretize(A(0), 64), 31)); return true;
    case Intrinsic::vector_reduce_fadd: { Val r = A(0); for (auto &x : A(1).agg()) r = fp_bin(Instruction::FAdd, r, x, flt); out = r; return true; }
    case Intrinsic::vector_reduce_add: { Val r = Val::I(0); for (auto &x : A(0).agg()) r = int_bin(Instruction::Add, r, x, in.width); out = r; return true; }
    case Intrinsic::load_relative: { uint64_t p = concretize(A(0), 64), o = concretize(A(1), 64); int32_t d = load_raw(p + o, 4, false).i; out = Val::I(p + d); return true; }
    default: engine_error("intrinsic " + in.callee->getName().str());
    }
}

// ------------------------------------------------------------------ main interpreter loop
static void run_loop() {
    ull tick = 0;
    for (;;) {
        if (TH->st.empty()) {
            TH->state = 2;
            yield_next();
            if (TH->state != 0) return;
            continue;
        }
        Frame &f = TH->st.back();
        const Ins &in = f.fn->blks[f.blk].ins[f.pc];
        if (LINES && f.pc == 0) lines_mark(in.I);
        INSTRS++;
        if ((++tick & 0xfff) == 0) {
            if (SH->stop) endpath(1);
            if ((tick & 0x3ffff) == 0 && now_s() - T0 > OPT.timeout) { SH->deadline_hit = 1; endpath(1); }
            if (INSTRS > OPT.max_instr) violation("runaway execution: more than " + std::to_string(OPT.max_instr) + " instructions on one path", "nontermination");
        }
        auto A = [&](int k) -> const Val & { return R_(f, in.a[k]); };
        switch (in.op) {
        case Instruction::Ret: {
            Val rv;
            bool has = !in.a.empty();
            if (has) rv = A(0);
            kill_allocas(f);
            int32_t dst = f.retdst;
            auto onret = f.onret;
            TH->st.pop_back();
            if (!TH->st.empty()) {
                Frame &c = TH->st.back();
                const Ins &ci = c.fn->blks[c.blk].ins[c.pc];
                if (has && dst >= 0) c.regs[dst] = rv;
                if (ci.op == Instruction::Invoke) goto_blk(c, ci.succ0); else c.pc++;
            }
            continue;
        }
        case Instruction::Br:
            if (in.a.empty()) goto_blk(f, in.succ0);
            else goto_blk(f, truth(A(0)) ? in.succ0 : in.succ1);
            continue;
        case Instruction::Switch: {
            const Val &v = A(0);
            int to = in.succ0;
            if (v.k == K::Int) { for (auto &s : in.steps) if ((uint64_t)s.scale == mask_w(v.i, in.width)) { to = s.ref; break; } }
            else if (v.k == K::SInt) {
                z3::expr e = bv_of(v, in.width);
                for (auto &s : in.steps) {
                    Val c = in.width == 1 ? Val::S(e == ZC->bool_val(s.scale & 1)) : Val::S(e == ZC->bv_val((uint64_t)s.scale, in.width));
                    if (truth(c)) { to = s.ref; break; }
                }
            } else violation("switch on an uninitialised value", "uninit");
            goto_blk(f, to);
            continue;
        }
        case Instruction::Unreachable: violation("reached code marked unreachable (undefined behaviour)", "ub");
        case Instruction::Resume: {
            // continue unwinding from the caller
            kill_allocas(f);
            TH->st.pop_back();
            do_throw();
            continue;
        }
        case Instruction::LandingPad: {
            auto *lp = cast<LandingPadInst>(in.I);
            uint64_t sel = 0;
            for (unsigned k = 0; k < lp->getNumClauses(); k++) {
                if (!lp->isCatch(k)) continue;
                Val ti = const_val(lp->getClause(k));
                if (ti.i == 0) { sel = 1; break; }
                if (EXC_LIB || ti.i == EXC_TI) { sel = mask_w(ti.i, 31); break; }
            }
            if (sel == 0 && !lp->isCleanup()) { kill_allocas(f); TH->st.pop_back(); do_throw(); continue; }
            f.regs[in.dst] = Val::A({Val::I(EXC_PTR), Val::I(sel)});
            f.pc++;
            continue;
        }
        case Instruction::Alloca: {
            auto *ai = cast<AllocaInst>(in.I);
            uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
            uint64_t cnt = in.a.empty() ? 1 : concretize(A(0), 64);
            uint64_t a = alloc_obj(n * cnt, 2, ai->getName().str());
            f.allocas.push_back(a);
            f.regs[in.dst] = Val::I(a);
            f.pc++;
            continue;
        }
        case Instruction::Load: {
            uint64_t a = concretize(A(0), 64);
            Val v = load_ty(in.ty, a);
            TH->st.back().regs[in.dst] = v;
            f.pc++;
            continue;
        }
        case Instruction::Store: {
            uint64_t a = concretize(A(1), 64);
            store_ty(in.ty, a, A(0));
            f.pc++;
            continue;
        }
        case Instruction::GetElementPtr: {
            Val b = A(0);
            if (b.k == K::Undef) { f.regs[in.dst] = b; f.pc++; continue; }
            bool und = false, sym = b.k == K::SInt;
            uint64_t r = b.k == K::Int ? b.i + in.off : 0;
            for (auto &s : in.steps) {
                const Val &x = R_(f, s.ref);
                if (x.k == K::Undef) und = true;
                else if (x.k == K::SInt) sym = true;
                else r += sx_w(x.i, in.width2) * s.scale;
            }
            if (und) { f.regs[in.dst] = Val(); f.pc++; continue; }
            if (sym) {
                z3::expr e = b.k == K::SInt ? b.e() + ZC->bv_val((uint64_t)in.off, 64) : ZC->bv_val((uint64_t)r, 64);
                for (auto &s : in.steps) {
                    const Val &x = R_(f, s.ref);
                    if (x.k == K::SInt) { z3::expr xe = x.e(); if (in.width2 < 64) xe = z3::sext(xe, 64 - in.width2); e = e + xe * ZC->bv_val((uint64_t)s.scale, 64); }
                    else if (b.k == K::SInt) e = e + ZC->bv_val((uint64_t)(sx_w(x.i, in.width2) * s.scale), 64);
                }
                f.regs[in.dst] = Val::S(e);
            } else f.regs[in.dst] = Val::I(r);
            f.pc++;
            continue;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            if (in.ty->isVectorTy()) {
                std::vector<Val> r;
                unsigned n = cast<FixedVectorType>(in.ty)->getNumElements(), w = in.ty->getScalarSizeInBits();
                for (unsigned k = 0; k < n; k++) r.push_back(int_bin(in.op, A(0).k == K::Undef ? Val() : A(0).agg()[k], A(1).k == K::Undef ? Val() : A(1).agg()[k], w));
                f.regs[in.dst] = Val::A(r);
            } else {
                const Val &a = A(0), &b = A(1);
                f.regs[in.dst] = int_bin(in.op, a, b, in.width);
            }
            f.pc++;
            continue;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            bool flt = in.ty->getScalarType()->isFloatTy();
            if (in.ty->isVectorTy()) {
                std::vector<Val> r;
                unsigned n = cast<FixedVectorType>(in.ty)->getNumElements();
                for (unsigned k = 0; k < n; k++) r.push_back(fp_bin(in.op, A(0).k == K::Undef ? Val() : A(0).agg()[k], A(1).k == K::Undef ? Val() : A(1).agg()[k], flt));
                f.regs[in.dst] = Val::A(r);
            } else f.regs[in.dst] = fp_bin(in.op, A(0), A(1), flt);
            f.pc++;
            continue;
        }
        case Instruction::FNeg: {
            auto ng = [](const Val &v) { return v.k == K::Undef ? v : neg_real(v); };
            if (in.ty->isVectorTy()) { std::vector<Val> r; for (auto &x : A(0).agg()) r.push_back(ng(x)); f.regs[in.dst] = Val::A(r); }
            else f.regs[in.dst] = ng(A(0));
            f.pc++;
            continue;
        }
        case Instruction::ICmp: case Instruction::FCmp: {
            auto *c = cast<CmpInst>(in.I);
            auto one = [&](const Val &a, const Val &b, unsigned w) { return in.op == Instruction::ICmp ? icmp(c->getPredicate(), a, b, w) : fcmp(c->getPredicate(), a, b); };
            if (in.ty->isVectorTy()) {
                std::vector<Val> r;
                unsigned n = cast<FixedVectorType>(in.ty)->getNumElements(), w = c->getOperand(0)->getType()->getScalarSizeInBits();
                for (unsigned k = 0; k < n; k++) r.push_back(one(A(0).k == K::Undef ? Val() : A(0).agg()[k], A(1).k == K::Undef ? Val() : A(1).agg()[k], w));
                f.regs[in.dst] = Val::A(r);
            } else f.regs[in.dst] = one(A(0), A(1), in.width);
            f.pc++;
            continue;
        }
        case Instruction::Select: {
            Val c = A(0);
            const Val &x = A(1), &y = A(2);
            if (c.k == K::Agg) {
                std::vector<Val> r;
                for (size_t k = 0; k < c.agg().size(); k++) r.push_back(truth(c.agg()[k]) ? (x.k == K::Undef ? Val() : x.agg()[k]) : (y.k == K::Undef ? Val() : y.agg()[k]));
                f.regs[in.dst] = Val::A(r);
            } else if (c.k == K::Int) f.regs[in.dst] = (c.i & 1) ? x : y;
            else if (c.k == K::Undef) {
                f.regs[in.dst] = Val();
            } else if (in.ty->isIntegerTy() && (x.k == K::Int || x.k == K::SInt) && (y.k == K::Int || y.k == K::SInt) && in.width <= 64) {
                z3::expr r = z3::ite(c.e(), bv_of(x, in.width), bv_of(y, in.width));
                f.regs[in.dst] = Val::S(r);
            } else {
                bool merged = false;
                static int mm = -1;
                if (mm < 0) mm = OPT.params.count("merge_max") ? OPT.params["merge_max"] : 0;
                if (mm && in.ty->isDoubleTy() && (x.k == K::Real || (x.k == K::Dbl && std::isfinite(x.d))) && (y.k == K::Real || (y.k == K::Dbl && std::isfinite(y.d)))) {
                    // select(x < y, y, x): max and min without a case split, as (x + y +- |x - y|) / 2
                    auto at = ATOMS->find(c.e().id());
                    if (at != ATOMS->end()) {
                        PolyP px = polyof(x), py = polyof(y), d = ALG->sub(px, py);
                        int m = at->second.second.mask;
                        if (!d->is_const() && (m == 1 || m == 3 || m == 4 || m == 6)) {
                            mpq_class lc = d->t[0].second;
                            PolyP n = ALG->scale(d, mpq_class(1 / lc));
                            if (ALG->key(n) == at->second.second.key) {
                                bool gt = (m == 4 || m == 6);
                                if (lc < 0) gt = !gt;
                                PolyP ab = fabs_polyp(d);
                                PolyP sum = ALG->add(px, py);
                                PolyP r = gt ? ALG->add(sum, ab) : ALG->sub(sum, ab);
                                f.regs[in.dst] = Val::R(ALG->scale(r, mpq_class(1, 2)));
                                merged = true;
                            }
                        }
                    }
                }
                if (!merged) f.regs[in.dst] = truth(c) ? x : y;
            }
            f.pc++;
            continue;
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::AddrSpaceCast:
            f.regs[in.dst] = cast_op(in.op, A(0), in.I->getOperand(0)->getType(), in.ty);
            f.pc++;
            continue;
        case Instruction::Freeze: { Val v = A(0); if (v.k == K::Undef) v = is_fp(in.ty) ? Val::D(0) : Val::I(0); f.regs[in.dst] = v; f.pc++; continue; }
        case Instruction::ExtractValue: {
            Val v = A(0);
            for (unsigned ix : cast<ExtractValueInst>(in.I)->indices()) { if (v.k == K::Undef) break; v = Val(v.agg()[ix]); }
            f.regs[in.dst] = v;
            f.pc++;
            continue;
        }
        case Instruction::InsertValue: {
            std::function<Val(const Val &, Type *, ArrayRef<unsigned>)> insv = [&](const Val &b, Type *t, ArrayRef<unsigned> ix) -> Val {
                if (ix.empty()) return A(1);
                unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
                std::vector<Val> e = b.k == K::Undef ? std::vector<Val>(n) : b.agg();
                Type *et = t->isStructTy() ? t->getStructElementType(ix[0]) : t->getArrayElementType();
                e[ix[0]] = insv(e[ix[0]], et, ix.slice(1));
                return Val::A(e);
            };
            f.regs[in.dst] = insv(A(0), in.ty, cast<InsertValueInst>(in.I)->getIndices());
            f.pc++;
            continue;
        }
        case Instruction::ExtractElement: { uint64_t k = concretize(A(1), 64); f.regs[in.dst] = A(0).k == K::Undef ? Val() : Val(A(0).agg()[k]); f.pc++; continue; }
        case Instruction::InsertElement: {
            unsigned n = cast<FixedVectorType>(in.ty)->getNumElements();
            std::vector<Val> e = A(0).k == K::Undef ? std::vector<Val>(n) : A(0).agg();
            e[concretize(A(2), 64)] = A(1);
            f.regs[in.dst] = Val::A(e);
            f.pc++;
            continue;
        }
        case Instruction::ShuffleVector: {
            auto *sv = cast<ShuffleVectorInst>(in.I);
            unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
            std::vector<Val> e;
            for (int m : sv->getShuffleMask()) {
                if (m < 0) { e.push_back(Val()); continue; }
                const Val &s = (unsigned)m < n ? A(0) : A(1);
                e.push_back(s.k == K::Undef ? Val() : s.agg()[m % n]);
            }
            f.regs[in.dst] = Val::A(e);
            f.pc++;
            continue;
        }
        case Instruction::AtomicRMW: {
            auto *rm = cast<AtomicRMWInst>(in.I);
            bool save = RACE_ON; RACE_ON = false;
            uint64_t a = concretize(A(0), 64);
            Val old = load_ty(in.ty, a), nv;
            switch (rm->getOperation()) {
            case AtomicRMWInst::Add: nv = int_bin(Instruction::Add, old, A(1), in.width); break;
            case AtomicRMWInst::Sub: nv = int_bin(Instruction::Sub, old, A(1), in.width); break;
            case AtomicRMWInst::Or: nv = int_bin(Instruction::Or, old, A(1), in.width); break;
            case AtomicRMWInst::And: nv = int_bin(Instruction::And, old, A(1), in.width); break;
            case AtomicRMWInst::Xchg: nv = A(1); break;
            case AtomicRMWInst::FAdd: nv = fp_bin(Instruction::FAdd, old, A(1), false); break;
            default: engine_error("atomicrmw");
            }
            store_ty(in.ty, a, nv);
            RACE_ON = save;
            f.regs[in.dst] = old;
            f.pc++;
            continue;
        }
        case Instruction::AtomicCmpXchg: {
            bool save = RACE_ON; RACE_ON = false;
            uint64_t a = concretize(A(0), 64);
            Type *t = cast<StructType>(in.ty)->getElementType(0);
            Val old = load_ty(t, a);
            bool eq = truth(icmp(CmpInst::ICMP_EQ, old, A(1), t->isIntegerTy() ? t->getIntegerBitWidth() : 64));
            if (eq) store_ty(t, a, A(2));
            RACE_ON = save;
            f.regs[in.dst] = Val::A({old, Val::I(eq)});
            f.pc++;
            continue;
        }
        case Instruction::Fence: f.pc++; continue;
        case Instruction::Call: case Instruction::Invoke: {
            if (in.iid != Intrinsic::not_intrinsic) {
                Val out;
                exec_intrinsic(in, f, out);
                if (in.dst >= 0) f.regs[in.dst] = out;
                if (in.op == Instruction::Invoke) goto_blk(f, in.succ0); else f.pc++;
                continue;
            }
            const Function *F = in.callee;
            int b = in.builtin;
            size_t na = in.a.size();
            if (!F) {
                na--;
                uint64_t fp = concretize(A(na), 64);
                auto it = AFN.find(fp);
                if (it == AFN.end()) violation(fp < 4096 ? "call through a null function pointer" : "call through an invalid function pointer", "memory");
                F = it->second;
                b = builtin_id(F->getName().str());
            }
            if (b >= 0) {
                Val out;
                if (!in.callee) { Ins tmp = in; tmp.callee = F; tmp.a.pop_back(); if (exec_builtin(b, tmp, f, out)) { if (in.dst >= 0) f.regs[in.dst] = out; if (in.op == Instruction::Invoke) goto_blk(f, in.succ0); else f.pc++; } continue; }
                if (exec_builtin(b, in, f, out)) {
                    if (in.dst >= 0) f.regs[in.dst] = out;
                    if (in.op == Instruction::Invoke) goto_blk(f, in.succ0); else f.pc++;
                }
                continue;
            }
            if (F->isDeclaration()) engine_error("call to unmodelled external function " + demangle(F->getName().str()));
            std::vector<Val> args;
            args.reserve(na);
            for (size_t k = 0; k < na; k++) args.push_back(A(k));
            // byval arguments
            auto *cb = cast<CallBase>(in.I);
            for (size_t k = 0; k < na && k < cb->arg_size(); k++)
                if (cb->isByValArgument(k)) {
                    uint64_t n = DL->getTypeAllocSize(cb->getParamByValType(k));
                    uint64_t c = alloc_obj(n, 2, "byval");
                    mem_copy(c, concretize(args[k], 64), n);
                    f.allocas.push_back(c);
                    args[k] = Val::I(c);
                }
            push_call(F, std::move(args), in.dst, &in);
            continue;
        }
        default: engine_error(std::string("instruction ") + in.I->getOpcodeName());
        }
    }
}
static void finish_process() {
    flush_instr();
    if (DEPTH > (int)SH->maxdepth.load()) SH->maxdepth = DEPTH;
    if (OWN_TOKEN) SH->tokens++;
    SH->active--;
    fflush(stdout);
    _exit(0);
}
static void init_global(Type *t, uint64_t a, const Constant *c) {
    if (isa<ConstantAggregateZero>(c)) { mem_set(a, Val::I(0), DL->getTypeAllocSize(t)); return; }
    if (isa<UndefValue>(c)) { mem_set(a, Val::I(0), DL->getTypeAllocSize(t)); return; }
    if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
        StringRef s = cds->getRawDataValues();
        Obj *o = find_obj(a);
        memcpy(&o->data[a - o->base], s.data(), s.size());
        memset(&o->st[a - o->base], 1, s.size());
        return;
    }
    if (auto *st = dyn_cast<StructType>(t)) {
        mem_set(a, Val::I(0), DL->getTypeAllocSize(t));
        auto *sl = DL->getStructLayout(st);
        for (unsigned k = 0; k < st->getNumElements(); k++) init_global(st->getElementType(k), a + sl->getElementOffset(k), c->getAggregateElement(k));
        return;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned k = 0; k < at->getNumElements(); k++) init_global(at->getElementType(), a + k * es, c->getAggregateElement(k));
        return;
    }
    store_ty(t, a, const_val(c));
}
static void path_main(const Function *entry) {
    int why = 3;
    try {
        // constructors
        THR.push_back(std::make_unique<Thread>());
        CUR = 0; TH = THR[0].get();
        if (auto *gc = MOD->getNamedGlobal("llvm.global_ctors"))
            if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
                std::vector<std::pair<uint64_t, const Function *>> fs;
                for (unsigned k = 0; k < ca->getNumOperands(); k++) {
                    auto *cs = cast<ConstantStruct>(ca->getOperand(k));
                    fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())});
                }
                std::stable_sort(fs.begin(), fs.end(), [](auto &a, auto &b) { return a.first < b.first; });
                for (auto &p : fs) { TH->state = 0; push_call(p.second, {}, -1, nullptr); run_loop(); }
            }
        TH->state = 0;
        push_call(entry, {}, -1, nullptr);
        run_loop();
        nf_confirm();
        why = 0;
        for (auto &t : THR) if (t->state != 2) { SH->errors++; why = 3; } // a thread was lost
    } catch (PathEnd &p) {
        why = p.why;
    } catch (z3::exception &e) {
        SH->errors++;
        shlock();
        FILE *f = fopen((OPT.outdir + "/errors.txt").c_str(), "a");
        if (f) { fprintf(f, "z3 exception %s [%s]\n", e.msg(), g_where().c_str()); fclose(f); }
        shunlock();
        why = 3;
    } catch (std::exception &e) {
        SH->errors++;
        shlock();
        FILE *f = fopen((OPT.outdir + "/errors.txt").c_str(), "a");
        if (f) { fprintf(f, "exception %s [%s]\n", e.what(), g_where().c_str()); fclose(f); }
        shunlock();
    }
    if (why == 0) {
        ull n = SH->paths++;
        bool samp = n < 3 || (n & (n - 1)) == 0;
        if (samp && (int)SH->samples.load() < OPT.max_samples) {
            if (ensure_model() && MODEL_OK) {
                ull k = SH->samples++;
                FILE *f = fopen((OPT.outdir + "/sample." + std::to_string(k) + ".txt").c_str(), "w");
                fprintf(f, "# entry %s\n# checks %llu\n", OPT.entry.c_str(), CHECKS_PATH);
                for (auto &t : TRACE) fprintf(f, "# trace %s\n", t.c_str());
                dump_inputs(f);
                fclose(f);
            }
        }
    } else if (why == 1) SH->pruned++;
    finish_process();
}
int main(int argc, char **argv) {
    if (argc < 4) { fprintf(stderr, "usage: symex file.bc entry outdir [--workers n] [--timeout s] [--max-viol n] [--param k=v] ...\n"); return 2; }
    OPT.bc = argv[1]; OPT.entry = argv[2]; OPT.outdir = argv[3];
    for (int k = 4; k < argc; k++) {
        std::string a = argv[k];
        auto nx = [&] { return std::string(argv[++k]); };
        if (a == "--workers") OPT.workers = std::stoi(nx());
        else if (a == "--timeout") OPT.timeout = std::stod(nx());
        else if (a == "--max-viol") OPT.max_viol = std::stoi(nx());
        else if (a == "--max-samples") OPT.max_samples = std::stoi(nx());
        else if (a == "--rlimit") OPT.rlimit = std::stoul(nx());
        else if (a == "--max-instr") OPT.max_instr = std::stoull(nx());
        else if (a == "--seed") OPT.seed = std::stoi(nx());
        else if (a == "--param") { std::string s = nx(); auto p = s.find('='); OPT.params[s.substr(0, p)] = std::stoi(s.substr(p + 1)); }
    }
    SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)SH, 0, sizeof(Shared));
    mkdir(OPT.outdir.c_str(), 0755);
    T0 = now_s();
    LLVMContext ctx;
    SMDiagnostic err;
    auto mod = parseIRFile(OPT.bc, err, ctx);
    if (!mod) { err.print("symex", errs()); return 2; }
    MOD = mod.get();
    DL  = &MOD->getDataLayout();
    const Function *entry = MOD->getFunction(OPT.entry);
    if (!entry) { fprintf(stderr, "no entry %s\n", OPT.entry.c_str()); return 2; }
    init_builtins();
    ZC = new z3::context();
    ALG = new Alg();
    IVARS = new std::vector<IVar>(); PCS = new std::vector<PC1>(); ATOMS = new std::unordered_map<unsigned, std::pair<z3::expr, AtomInfo>>(); P2Z = new std::unordered_map<const Poly *, std::pair<PolyP, z3::expr>>(); RZ = new std::vector<z3::expr>(); INTID = new std::unordered_map<unsigned, uint32_t>();
    for (auto &g : MOD->globals()) {
        if (g.getName().starts_with("llvm.")) continue;
        uint64_t n = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
        if (g.isDeclaration()) n = std::max<uint64_t>(n, 64);
        GADDR[&g] = alloc_obj(n, 0, demangle(g.getName().str()), true);
    }
    for (auto &fn : *MOD) faddr(&fn);
    sp_index();
    lines_index();
    for (auto &g : MOD->globals()) {
        if (g.getName().starts_with("llvm.") || g.isDeclaration()) continue;
        init_global(g.getValueType(), GADDR[&g], g.getInitializer());
        if (g.isConstant()) OBJ[GADDR[&g]]->ro = true;
    }
    SH->tokens = OPT.workers - 1;
    SH->active = 1;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    fflush(stdout); fflush(stderr);
    pid_t pg = fork();
    if (pg == 0) {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        OWN_TOKEN = true;
        path_main(entry);
    }
    setpgid(pg, pg);
    bool killed = false;
    for (;;) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p < 0 && errno == ECHILD) break;
        if (p > 0) {
            if (!killed && (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st)))) {
                SH->errors++;
                SH->active--;
                FILE *f = fopen((OPT.outdir + "/errors.txt").c_str(), "a");
                if (f) { fprintf(f, "worker died: status %d\n", st); fclose(f); }
            }
            continue;
        }
        double t = now_s() - T0;
        if (!killed && t > OPT.timeout + 10) { SH->deadline_hit = 1; kill(-pg, SIGKILL); killed = true; }
        usleep(2000);
    }
    double wall = now_s() - T0;
    lines_write();
    FILE *f = fopen((OPT.outdir + "/stats.json").c_str(), "w");
    fprintf(f, "{\"entry\":\"%s\",\"paths\":%llu,\"pruned\":%llu,\"forks\":%llu,\"branches_sym\":%llu,\"queries\":%llu,\"solver_s\":%.3f,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"instrs\":%llu,\"checks_nf\":%llu,\"nf_smt\":%llu,\"checks_z3\":%llu,\"checks_conc\":%llu,\"violations\":%llu,\"errors\":%llu,\"inconclusive\":%llu,\"maxdepth\":%llu,\"samples\":%llu,\"race_accesses\":%llu,\"complete\":%s,\"wall_s\":%.2f,\n\"reach\":{",
            OPT.entry.c_str(), SH->paths.load(), SH->pruned.load(), SH->forks.load(), SH->branches_sym.load(), SH->queries.load(), SH->query_ns.load() / 1e9, SH->sat.load(), SH->unsat.load(), SH->unknown.load(), SH->instrs.load(), SH->checks_nf.load(), SH->nf_smt.load(), SH->checks_z3.load(), SH->checks_conc.load(), SH->violations.load(), SH->errors.load(), SH->inconclusive.load(), SH->maxdepth.load(), SH->samples.load(), SH->races_checked.load(), (SH->deadline_hit || SH->stop || SH->errors) ? "false" : "true", wall);
    for (int k = 0; k < SH->nreach; k++) fprintf(f, "%s\"%s\":%llu", k ? "," : "", SH->reachname[k], SH->reach[k].load());
    fprintf(f, "},\n\"deadline\":%s,\"functions\":[", SH->deadline_hit ? "true" : "false");
    {
        std::set<std::string> names;
        for (auto &p : SPIDX) if (SH->funcs[p.second / 8 % 65536] & (1 << (p.second % 8))) names.insert(p.first);
        bool first = true;
        for (auto &n : names) {
            std::string e;
            for (char c : n) { if (c == '"' || c == '\\') e += '\\'; e += c; }
            fprintf(f, "%s\n\"%s\"", first ? "" : ",", e.c_str());
            first = false;
        }
    }
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}
