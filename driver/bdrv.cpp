// Bytecode driver (C24): corrupts the modules that the compiler produces and compares the verdict of the machine's
// loader with an independent definition of a well formed module. Accepted modules whose corruption keeps every reference
// of the right kind are executed as well.
#include "batch.hpp"
#include "host.hpp"

#include "api/internal.hpp"
#include "bytecode/module.hpp"

#include <map>
#include <set>

using namespace host;
using namespace tiro;

namespace {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed)
        : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 2685821657736338717ull >> 11;
    }
    size_t below(size_t n) { return n ? size_t(next() % n) : 0; }
    bool chance(size_t n) { return below(n) == 0; }
};

// The instruction set, as documented: r register, p parameter, m member, n u32, i i64, f f64, o code offset.
struct Layout {
    const char* name;
    const char* operands;
};

const std::map<int, Layout>& layouts() {
    static const std::map<int, Layout> table = {
#define OP(n, o) {int(BytecodeOp::n), {#n, o}},
        OP(LoadNull, "r") OP(LoadFalse, "r") OP(LoadTrue, "r") OP(LoadInt, "ir") OP(LoadFloat, "fr") OP(LoadParam, "pr")
        OP(StoreParam, "rp") OP(LoadModule, "mr") OP(StoreModule, "rm") OP(LoadMember, "rmr") OP(StoreMember, "rrm")
        OP(LoadTupleMember, "rnr") OP(StoreTupleMember, "rrn") OP(LoadIndex, "rrr") OP(StoreIndex, "rrr")
        OP(LoadClosure, "r") OP(LoadEnv, "rnnr") OP(StoreEnv, "rrnn") OP(Add, "rrr") OP(Sub, "rrr") OP(Mul, "rrr")
        OP(Div, "rrr") OP(Mod, "rrr") OP(Pow, "rrr") OP(UAdd, "rr") OP(UNeg, "rr") OP(LSh, "rrr") OP(RSh, "rrr")
        OP(BAnd, "rrr") OP(BOr, "rrr") OP(BXor, "rrr") OP(BNot, "rr") OP(Gt, "rrr") OP(Gte, "rrr") OP(Lt, "rrr")
        OP(Lte, "rrr") OP(Eq, "rrr") OP(NEq, "rrr") OP(LNot, "rr") OP(Array, "nr") OP(Tuple, "nr") OP(Set, "nr")
        OP(Map, "nr") OP(Env, "rnr") OP(Closure, "mrr") OP(Record, "mr") OP(Iterator, "rr") OP(IteratorNext, "rrr")
        OP(Formatter, "r") OP(AppendFormat, "rr") OP(FormatResult, "rr") OP(Copy, "rr") OP(Swap, "rr") OP(Push, "r")
        OP(Pop, "") OP(PopTo, "r") OP(Jmp, "o") OP(JmpTrue, "ro") OP(JmpFalse, "ro") OP(JmpNull, "ro")
        OP(JmpNotNull, "ro") OP(Call, "rn") OP(LoadMethod, "rmrr") OP(CallMethod, "rn") OP(Return, "r") OP(Rethrow, "")
        OP(AssertFail, "rr")
#undef OP
    };
    return table;
}

size_t width(char c) { return c == 'i' || c == 'f' ? 8 : 4; }

struct Operand {
    char kind;
    size_t pos;
    uint32_t value; // for 4 byte operands
};

struct Instr {
    int op;
    size_t pos;
    std::vector<Operand> operands;
};

bool decode(const std::vector<byte>& code, std::vector<Instr>& out) {
    size_t p = 0;
    while (p < code.size()) {
        auto it = layouts().find(int(code[p]));
        if (it == layouts().end())
            return false;
        Instr i{int(code[p]), p, {}};
        ++p;
        for (const char* o = it->second.operands; *o; ++o) {
            size_t w = width(*o);
            if (code.size() - p < w)
                return false;
            uint32_t v = 0;
            if (w == 4)
                for (size_t k = 0; k < 4; ++k)
                    v = v << 8 | uint32_t(code[p + k]);
            i.operands.push_back({*o, p, v});
            p += w;
        }
        out.push_back(std::move(i));
    }
    return true;
}

void put(std::vector<byte>& code, size_t pos, uint32_t v) {
    for (size_t k = 0; k < 4; ++k)
        code[pos + k] = byte(v >> (24 - 8 * k));
}

using Type = BytecodeMemberType;
const uint32_t INVALID = BytecodeMemberId().value();

/// Access by position, without relying on the checks of the storage classes.
struct View {
    BytecodeModule& m;
    size_t size() const { return m.member_count(); }
    BytecodeMember& member(size_t i) { return m.members()[BytecodeMemberId(uint32_t(i))]; }
    bool valid(BytecodeMemberId id) const { return id.value() != INVALID && id.value() < size(); }
    bool is(BytecodeMemberId id, Type t) { return valid(id) && member(id.value()).type() == t; }
    BytecodeFunction* function(BytecodeMemberId id) {
        if (!is(id, Type::Function))
            return nullptr;
        auto f = member(id.value()).as_function().id;
        return f.value() < m.function_count() ? &m.functions()[f] : nullptr;
    }
    bool string(InternedString s) const { return s.value() >= 1 && s.value() <= m.strings().size(); }
};

/// The independent definition of a well formed module. Returns the reason if it is not.
std::string judge(BytecodeModule& mod) {
    View v{mod};
    if (!v.string(mod.name()))
        return "module name";
    for (size_t i = 0; i < v.size(); ++i) {
        auto& m = v.member(i);
        auto earlier = [&](BytecodeMemberId id, Type t) { return v.is(id, t) && id.value() < i; };
        switch (m.type()) {
        case Type::Integer:
        case Type::Float:
        case Type::Variable:
            break;
        case Type::String:
            if (!v.string(m.as_string().value))
                return "string value";
            break;
        case Type::Symbol:
            if (!earlier(m.as_symbol().name, Type::String))
                return "symbol name";
            break;
        case Type::Import:
            if (!earlier(m.as_import().module_name, Type::String))
                return "import name";
            break;
        case Type::Function: {
            auto id = m.as_function().id;
            if (id.value() == INVALID || id.value() >= mod.function_count())
                return "function id";
            auto name = mod.functions()[id].name();
            if (name.value() != INVALID && !earlier(name, Type::String))
                return "function name";
            break;
        }
        case Type::RecordSchema: {
            auto id = m.as_record_schema().id;
            if (id.value() == INVALID || id.value() >= mod.record_count())
                return "record schema id";
            std::set<uint32_t> keys;
            for (auto k : mod.records()[id].keys()) {
                if (!earlier(k, Type::Symbol))
                    return "record key";
                auto name = v.member(k.value()).as_symbol().name; // (checked with the symbol)
                if (!keys.insert(v.member(name.value()).as_string().value.value()).second)
                    return "duplicate record key";
            }
            break;
        }
        }
    }
    for (size_t i = 0; i < v.size(); ++i) {
        auto* f = v.function(BytecodeMemberId(uint32_t(i)));
        if (!f)
            continue;
        if (f->locals() > (1u << 14))
            return "too many locals";
        std::vector<Instr> code;
        if (!decode(f->code(), code))
            return "code does not decode";
        if (code.empty())
            return "empty function";
        std::set<size_t> starts;
        for (auto& ins : code)
            starts.insert(ins.pos);
        for (auto& ins : code) {
            const std::string name = layouts().at(ins.op).name;
            for (auto& o : ins.operands) {
                switch (o.kind) {
                case 'r':
                    if (o.value >= f->locals())
                        return "register";
                    break;
                case 'p':
                    if (o.value >= f->params())
                        return "parameter";
                    break;
                case 'o':
                    if (!starts.count(o.value))
                        return "jump destination";
                    break;
                case 'm': {
                    BytecodeMemberId id(o.value);
                    if (!v.valid(id))
                        return "member reference";
                    if ((name == "LoadMember" || name == "StoreMember" || name == "LoadMethod") && !v.is(id, Type::Symbol))
                        return "member is not a symbol";
                    if (name == "Record" && !v.is(id, Type::RecordSchema))
                        return "member is not a record schema";
                    if (name == "StoreModule" && !v.is(id, Type::Variable))
                        return "member is not a variable";
                    if (name == "Closure" && (!v.function(id) || v.function(id)->type() != BytecodeFunctionType::Closure))
                        return "member is not a closure function";
                    break;
                }
                case 'n':
                    if ((name == "Array" || name == "Tuple" || name == "Set" || name == "Map") && o.value > (1u << 16))
                        return "container size";
                    if (name == "Map" && o.value % 2)
                        return "map size";
                    break;
                }
            }
            if (name == "LoadClosure" && f->type() != BytecodeFunctionType::Closure)
                return "no closure";
        }
        const std::string last = layouts().at(code.back().op).name;
        if (last != "Return" && last != "Rethrow" && last != "Jmp" && last != "AssertFail")
            return "code does not end";
        size_t prev = 0;
        for (auto& h : f->handlers()) {
            if (!starts.count(h.from.value()) || h.from.value() < prev)
                return "handler start";
            if ((!starts.count(h.to.value()) && h.to.value() != f->code().size()) || h.to.value() <= h.from.value())
                return "handler end";
            if (!starts.count(h.target.value()))
                return "handler target";
            prev = h.to.value();
        }
    }
    if (mod.init().value() != INVALID) {
        auto* f = v.function(mod.init());
        if (!f || f->type() != BytecodeFunctionType::Normal)
            return "initializer";
    }
    for (const auto& [sym, val] : mod.exports()) {
        if (!v.is(sym, Type::Symbol))
            return "export name";
        if (!v.valid(val) || v.is(val, Type::Import) || v.is(val, Type::RecordSchema))
            return "exported value";
        if (v.is(val, Type::Function) && (!v.function(val) || v.function(val)->type() != BytecodeFunctionType::Normal))
            return "exported function";
    }
    return "";
}

std::unique_ptr<BytecodeModule> clone(BytecodeModule& src) {
    auto out = std::make_unique<BytecodeModule>();
    for (uint32_t i = 1; i <= src.strings().size(); ++i) {
        auto id = out->strings().insert(src.strings().value(InternedString(i)));
        if (id.value() != i)
            std::abort();
    }
    out->name(src.name());
    out->init(src.init());
    for (const auto& [s, v] : src.exports())
        out->add_export(s, v);
    for (auto id : src.member_ids())
        out->members().push_back(src.members()[id]);
    for (auto id : src.function_ids()) {
        auto& f = src.functions()[id];
        BytecodeFunction g;
        g.name(f.name());
        g.type(f.type());
        g.params(f.params());
        g.locals(f.locals());
        g.code() = f.code();
        g.handlers() = f.handlers();
        out->functions().push_back(std::move(g));
    }
    for (auto id : src.record_ids()) {
        BytecodeRecordSchema r;
        r.keys() = src.records()[id].keys();
        out->records().push_back(std::move(r));
    }
    return out;
}

uint32_t around(Rng& r, uint32_t limit) {
    switch (r.below(8)) {
    case 0:
        return limit;
    case 1:
        return limit + 1;
    case 2:
        return INVALID;
    case 3:
        return limit ? limit - 1 : 0;
    case 4:
        return uint32_t(r.next());
    case 5:
        return uint32_t(1) << r.below(32);
    default:
        return uint32_t(r.below(limit ? limit : 1));
    }
}

struct Mutant {
    std::string what;
    bool runnable = true; // every change keeps all references of the right kind and the operand stack balanced
};

BytecodeMemberId random_member(Rng& r, View& v) { return BytecodeMemberId(around(r, uint32_t(v.size()))); }

void mutate(BytecodeModule& m, Rng& r, Mutant& out, bool gentle) {
    View v{m};
    auto note = [&](std::string s, bool runnable = false) {
        out.what += (out.what.empty() ? "" : "; ") + s;
        out.runnable = out.runnable && runnable;
    };
    auto pick_function = [&]() -> BytecodeFunction* {
        if (!m.function_count())
            return nullptr;
        return &m.functions()[BytecodeFunctionId(uint32_t(r.below(m.function_count())))];
    };
    auto add_export = [&](BytecodeMemberId sym, BytecodeMemberId val) {
        if (sym.value() != INVALID && val.value() != INVALID) // a precondition of the class
            m.add_export(sym, val);
    };
    const size_t kind = gentle ? 0 : r.below(16);
    if (kind < 6) { // an operand
        auto* f = pick_function();
        std::vector<Instr> code;
        if (!f || !decode(f->code(), code) || code.empty())
            return;
        auto& ins = code[r.below(code.size())];
        std::string name = layouts().at(ins.op).name;
        if (ins.operands.empty())
            return;
        auto& o = ins.operands[r.below(ins.operands.size())];
        uint32_t nv = o.value;
        bool runnable = false;
        switch (o.kind) {
        case 'r':
            nv = gentle ? uint32_t(r.below(f->locals())) : around(r, f->locals());
            runnable = true;
            break;
        case 'p':
            nv = gentle ? uint32_t(r.below(f->params())) : around(r, f->params());
            runnable = true;
            break;
        case 'm': {
            nv = gentle ? uint32_t(r.below(v.size())) : around(r, uint32_t(v.size()));
            BytecodeMemberId a(o.value), b(nv);
            runnable = v.valid(a) && v.valid(b) && v.member(a.value()).type() == v.member(b.value()).type();
            if (runnable && v.function(a))
                runnable = v.function(b) && v.function(a)->type() == v.function(b)->type();
            if (gentle && !runnable)
                return;
            break;
        }
        case 'o':
            if (gentle)
                return;
            if (r.chance(2))
                nv = uint32_t(code[r.below(code.size())].pos + (r.chance(2) ? r.below(5) : 0));
            else
                nv = around(r, uint32_t(f->code().size()));
            break;
        case 'n':
            if (name == "LoadTupleMember" || name == "StoreTupleMember" || name == "LoadEnv" || name == "StoreEnv") {
                nv = around(r, 4);
                runnable = true;
            } else if (name == "Env") {
                nv = gentle ? 1 + uint32_t(r.below(20)) : around(r, 5);
                runnable = nv > 0 && nv < 1000;
            } else if (gentle) {
                return;
            } else {
                nv = r.chance(3) ? (1u << 16) + uint32_t(r.below(4)) : around(r, 8);
            }
            break;
        default:
            if (width(o.kind) == 8) {
                for (size_t k = 0; k < 8; ++k)
                    f->code()[o.pos + k] = byte(r.next());
                note(name + " constant", true);
            }
            return;
        }
        if (nv == o.value)
            return;
        put(f->code(), o.pos, nv);
        note(name + "." + o.kind + " " + std::to_string(o.value) + "->" + std::to_string(nv) + " (" + std::to_string(f->locals()) + " locals)", runnable);
        return;
    }
    switch (kind) {
    case 6: { // raw code bytes
        auto* f = pick_function();
        if (!f)
            return;
        auto& c = f->code();
        size_t at = r.below(c.size());
        switch (r.below(6)) {
        case 0:
            if (!c.empty())
                c[at] = byte(r.next());
            note("byte " + std::to_string(at));
            break;
        case 1: {
            std::vector<Instr> code;
            if (!decode(c, code) || code.empty())
                return;
            auto& ins = code[r.below(code.size())];
            c[ins.pos] = byte(r.below(80));
            note(std::string("opcode of ") + layouts().at(ins.op).name);
            break;
        }
        case 2:
            c.resize(at);
            note("truncate at " + std::to_string(at));
            break;
        case 3:
            if (!c.empty())
                c.erase(c.begin() + long(at), c.begin() + long(at + 1 + r.below(c.size() - at)));
            note("erase at " + std::to_string(at));
            break;
        case 4:
            c.insert(c.begin() + long(at), 1 + r.below(9), byte(r.below(80)));
            note("insert at " + std::to_string(at));
            break;
        case 5: { // cut behind some instruction
            std::vector<Instr> code;
            if (!decode(c, code) || code.size() < 2)
                return;
            c.resize(code[1 + r.below(code.size() - 1)].pos);
            note("cut to " + std::to_string(c.size()));
            break;
        }
        }
        break;
    }
    case 7: {
        auto* f = pick_function();
        if (!f)
            return;
        if (r.chance(2)) {
            auto n = r.chance(4) ? (1u << 14) + uint32_t(r.below(2)) : around(r, f->locals());
            note("locals " + std::to_string(f->locals()) + "->" + std::to_string(n));
            f->locals(n);
        } else {
            auto n = around(r, f->params());
            note("params " + std::to_string(f->params()) + "->" + std::to_string(n));
            f->params(n);
        }
        break;
    }
    case 8: {
        auto* f = pick_function();
        if (!f)
            return;
        if (r.chance(2)) {
            f->type(f->type() == BytecodeFunctionType::Normal ? BytecodeFunctionType::Closure : BytecodeFunctionType::Normal);
            note("function type");
        } else {
            f->name(random_member(r, v));
            note("function name " + std::to_string(f->name().value()));
        }
        break;
    }
    case 9: {
        auto* f = pick_function();
        std::vector<Instr> code;
        if (!f || !decode(f->code(), code) || code.empty())
            return;
        auto off = [&] {
            if (r.chance(5))
                return BytecodeOffset(around(r, uint32_t(f->code().size())));
            if (r.chance(6))
                return BytecodeOffset(uint32_t(code[r.below(code.size())].pos + 1));
            return BytecodeOffset(uint32_t(code[r.below(code.size())].pos));
        };
        auto& h = f->handlers();
        switch (h.empty() ? 0 : r.below(5)) {
        case 0: {
            auto a = off(), b = off();
            if (a.value() > b.value() && !r.chance(6))
                std::swap(a, b);
            h.insert(h.begin() + long(r.below(h.size() + 1)), ExceptionHandler(a, b, off()));
            break;
        }
        case 1:
            h[r.below(h.size())].from = off();
            break;
        case 2:
            h[r.below(h.size())].to = r.chance(4) ? BytecodeOffset(uint32_t(f->code().size())) : off();
            break;
        case 3:
            h[r.below(h.size())].target = off();
            break;
        case 4:
            std::swap(h[r.below(h.size())], h[r.below(h.size())]);
            break;
        }
        note("handlers of a function with " + std::to_string(h.size()));
        break;
    }
    case 10:
    case 11: { // the references of a member
        if (!v.size())
            return;
        size_t i = r.below(v.size());
        auto& mem = v.member(i);
        auto near = [&] { return r.chance(2) ? random_member(r, v) : BytecodeMemberId(uint32_t(r.below(i + 2))); };
        note("member " + std::to_string(i) + " (" + std::string(to_string(mem.type())) + ")");
        switch (mem.type()) {
        case Type::String:
            mem = BytecodeMember::make_string(InternedString(around(r, uint32_t(m.strings().size() + 1))));
            break;
        case Type::Symbol:
            mem = BytecodeMember::make_symbol(near());
            break;
        case Type::Import:
            mem = BytecodeMember::make_import(near());
            break;
        case Type::Function:
            mem = BytecodeMember::make_function(BytecodeFunctionId(around(r, uint32_t(m.function_count()))));
            break;
        case Type::RecordSchema:
            if (r.chance(2)) {
                mem = BytecodeMember::make_record_schema(BytecodeRecordSchemaId(around(r, uint32_t(m.record_count()))));
            } else if (mem.as_record_schema().id.value() < m.record_count()) {
                auto& keys = m.records()[mem.as_record_schema().id].keys();
                if (keys.empty() || r.chance(3))
                    keys.push_back(near());
                else
                    keys[r.below(keys.size())] = near();
            }
            break;
        default:
            break;
        }
        break;
    }
    case 12: { // another kind of member, or another order
        if (!v.size())
            return;
        size_t i = r.below(v.size()), j = r.below(v.size());
        note("members " + std::to_string(i) + ", " + std::to_string(j));
        switch (r.below(5)) {
        case 0:
            std::swap(v.member(i), v.member(j));
            break;
        case 1:
            v.member(i) = v.member(j);
            break;
        case 2:
            v.member(i) = BytecodeMember::make_integer(7);
            break;
        case 3:
            v.member(i) = BytecodeMember::make_variable({}, {});
            break;
        case 4:
            v.member(i) = BytecodeMember::make_symbol(BytecodeMemberId(uint32_t(j)));
            break;
        }
        break;
    }
    case 13:
        add_export(random_member(r, v), random_member(r, v));
        note("export");
        break;
    case 14: { // an export whose name is fine
        std::vector<uint32_t> syms;
        for (size_t i = 0; i < v.size(); ++i)
            if (v.member(i).type() == Type::Symbol)
                syms.push_back(uint32_t(i));
        if (syms.empty())
            return;
        add_export(BytecodeMemberId(syms[r.below(syms.size())]), random_member(r, v));
        note("exported value");
        break;
    }
    case 15:
        if (r.chance(4)) {
            m.name(InternedString(around(r, uint32_t(m.strings().size() + 1))));
            note("module name");
        } else {
            m.init(random_member(r, v));
            note("initializer " + std::to_string(m.init().value()));
        }
        break;
    }
}

std::unique_ptr<tiro_module> wrap(std::unique_ptr<BytecodeModule> m) {
    return std::make_unique<tiro_module>(std::move(m));
}

struct Vm {
    tiro_vm_t vm = nullptr;
    explicit Vm(bool std_lib) {
        tiro_vm_settings_t s;
        tiro_vm_settings_init(&s);
        s.page_size = 65536;
        s.max_heap_size = 8 << 20;
        Err err;
        vm = tiro_vm_new(&s, err);
        if (std_lib)
            tiro_vm_load_std(vm, err);
    }
    ~Vm() { tiro_vm_free(vm); }
    Vm(const Vm&) = delete;
};

std::string details(tiro_error_t e) { return std::string(tiro_error_message(e)) + ": " + tiro_error_details(e); }

/// Runs an exported function of the module. Returns a description of the outcome.
std::string run(tiro_vm_t vm, const std::string& module, const std::string& fn, int* internal, std::string* why) {
    tiro_error_t e = nullptr;
    auto check = [&](const char* what) {
        if (!e)
            return std::string();
        std::string d = details(e);
        if (tiro_error_errc(e) == TIRO_ERROR_INTERNAL || tiro_error_errc(e) == TIRO_ERROR_BAD_STATE) {
            // an error that the machine raised itself is fine; a failed assertion stands for an unchecked access
            if (d.find("Assertion") != std::string::npos)
                *internal += 1;
            *why = d;
        }
        std::string out = std::string(what) + " " + tiro_error_name(e);
        tiro_error_free(e);
        e = nullptr;
        return out;
    };
    tiro_handle_t f = tiro_global_new(vm, nullptr), co = tiro_global_new(vm, nullptr);
    std::string out;
    tiro_vm_get_export(vm, ts(module), ts(fn), f, &e);
    out = check("export");
    if (out.empty()) {
        tiro_make_coroutine(vm, f, nullptr, co, &e);
        out = check("coroutine");
    }
    if (out.empty()) {
        tiro_coroutine_start(vm, co, &e);
        out = check("start");
    }
    for (int i = 0; out.empty() && i < 20 && tiro_vm_has_ready(vm); ++i) {
        tiro_vm_run_ready(vm, &e);
        out = check("run");
    }
    if (out.empty()) {
        tiro_handle_t res = tiro_global_new(vm, nullptr), s = tiro_global_new(vm, nullptr);
        if (tiro_coroutine_completed(vm, co)) {
            tiro_coroutine_result(vm, co, res, &e);
            out = check("result");
            if (out.empty() && tiro_result_is_success(vm, res)) {
                tiro_result_value(vm, res, res, &e);
                out = check("value");
            } else if (out.empty()) {
                tiro_result_error(vm, res, res, &e);
                out = check("error");
            }
            if (out.empty()) {
                tiro_value_to_string(vm, res, s, &e);
                out = check("to_string");
            }
            if (out.empty()) {
                tiro_string_t str;
                tiro_string_value(vm, s, &str, &e);
                out = "value " + std::string(str.data ? str.data : "", str.length);
            }
        } else {
            out = "not completed";
        }
        tiro_global_free(res);
        tiro_global_free(s);
    }
    tiro_global_free(f);
    tiro_global_free(co);
    return out;
}

json run_case(const json& c) {
    json out;
    auto compiled = host::compile(c["module"]);
    if (!compiled.module) {
        out["compile"] = false;
        return out;
    }
    auto* raw = compiled.module;
    BytecodeModule& original = *raw->mod;
    const std::string name(original.strings().value(original.name()));
    const std::string fn = c.value("fn", std::string("main"));
    const bool std_lib = c.value("std", false);
    const bool gentle = c.value("gentle", false);
    Rng r(c["seed"].get<uint64_t>());
    long tested = 0, rejected = 0, accepted = 0, executed = 0, internal = 0, code_checked = 0;
    json bad = json::array();
    std::map<std::string, long> reasons, runs;
    auto report = [&](const std::string& key, const std::string& what) {
        if (bad.size() < 20)
            bad.push_back({key, what});
    };

    // The module itself.
    std::string expected;
    {
        std::string reason = judge(original);
        Vm vm(std_lib);
        tiro_error_t e = nullptr;
        auto m = wrap(clone(original));
        tiro_vm_load_bytecode(vm.vm, m.get(), &e);
        if (e) {
            report("compiled module rejected", details(e));
            tiro_error_free(e);
        } else if (!reason.empty()) {
            report("compiled module is malformed", reason);
        } else if (c.value("run", true)) {
            int in = 0;
            std::string why;
            expected = run(vm.vm, name, fn, &in, &why);
            if (in)
                report("internal error", why);
        }
        for (auto id : original.function_ids())
            code_checked += long(original.functions()[id].code().size());
        std::map<std::string, long> ops;
        for (auto id : original.function_ids()) {
            std::vector<Instr> code;
            decode(original.functions()[id].code(), code);
            for (auto& i : code)
                ops[layouts().at(i.op).name]++;
        }
        out["ops"] = ops;
    }

    auto vm = std::make_unique<Vm>(std_lib);
    for (int n = c.value("mutants", 100); n > 0 && bad.size() < 20; --n) {
        auto m = clone(original);
        Mutant mu;
        for (size_t k = gentle ? 1 + r.below(3) : (r.chance(3) ? 1 + r.below(3) : 1); k > 0; --k)
            mutate(*m, r, mu, gentle);
        if (mu.what.empty())
            continue;
        ++tested;
        const std::string reason = judge(*m);
        std::string mutant_name = View{*m}.string(m->name()) ? std::string(m->strings().value(m->name())) : "";
        if (mutant_name == "std" && std_lib) // taken
            continue;
        auto w = wrap(std::move(m));
        tiro_error_t e = nullptr;
        if (c.value("describe", false))
            std::fprintf(stderr, "%s [%s]\n", mu.what.c_str(), reason.c_str());
        tiro_vm_load_bytecode(vm->vm, w.get(), &e);
        if (e) {
            ++rejected;
            if (reason.empty())
                report("valid module rejected", mu.what + ": " + details(e));
            else if (std::string(tiro_error_details(e)).find("assert") != std::string::npos
                     || std::string(tiro_error_message(e)).find("assert") != std::string::npos)
                report("malformed module passes the verifier: " + reason, mu.what + ": " + details(e));
            else
                reasons[reason]++;
            tiro_error_free(e);
            // nothing of the module may be there
            if (!mutant_name.empty()) {
                Err e2;
                tiro_handle_t h = tiro_global_new(vm->vm, nullptr);
                tiro_vm_get_export(vm->vm, ts(mutant_name), ts(fn), h, e2);
                if (e2.code() != TIRO_ERROR_MODULE_NOT_FOUND)
                    report("rejected module is visible", mu.what);
                tiro_global_free(h);
            }
            continue;
        }
        ++accepted;
        if (!reason.empty()) {
            report("malformed module accepted: " + reason, mu.what);
        } else if (mu.runnable && c.value("run", true)) {
            int in = 0;
            std::string why;
            std::string res = run(vm->vm, mutant_name, fn, &in, &why);
            ++executed;
            runs[res.substr(0, res.find(' '))]++;
            if (in) {
                ++internal;
                report("internal error in an accepted module: " + why.substr(0, 60), mu.what + ": " + why);
            }
        }
        vm = std::make_unique<Vm>(std_lib);
    }
    // After all those rejections the original module loads and runs as always.
    {
        tiro_error_t e = nullptr;
        auto m = wrap(clone(original));
        tiro_vm_load_bytecode(vm->vm, m.get(), &e);
        if (e) {
            report("module rejected after rejected modules", details(e));
            tiro_error_free(e);
        } else if (!expected.empty()) {
            int in = 0;
            std::string why;
            std::string got = run(vm->vm, name, fn, &in, &why);
            if (got != expected)
                report("result changed by rejected modules", expected + " / " + got);
        }
    }
    delete raw;
    out["compile"] = true;
    out["bad"] = bad;
    out["tested"] = tested;
    out["rejected"] = rejected;
    out["accepted"] = accepted;
    out["executed"] = executed;
    out["code_bytes"] = code_checked;
    out["reasons"] = reasons;
    out["runs"] = runs;
    out["expected"] = expected.substr(0, 200);
    return out;
}

} // namespace

int main(int argc, char** argv) { return batch::main_loop(argc, argv, run_case); }
