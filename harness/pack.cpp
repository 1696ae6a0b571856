#include "pack.h"

std::string pack_0(const J&); std::string pack_1(const J&); std::string pack_2(const J&);
std::string pack_3(const J&); std::string pack_4(const J&); std::string pack_5(const J&);

thread_local const J* cur_plan = nullptr;
thread_local std::vector<std::shared_ptr<void>> keep_alive;

namespace {
bool field(Ex& x, const J& ty) { return field_leaf(x, ty); }
void fields(const J* plan, const J* val, std::vector<std::string>* res, Ex x)
{
    if(!plan) { fprintf(stderr, "driver: object without a plan\n"); exit(3); }
    size_t i = 0;
    bool by_pos = (*plan)["pos"].b;
    for(auto& f : (*plan)["f"].a) {
        Name name(f);
        x.name = by_pos ? nullptr : &name.s;
        x.flags = f["opt"].b ? CtxFlags::Optional : CtxFlags::None;
        x.val = val ? &(*val)["e"].a[i] : nullptr;
        x.init = f.has("i") ? &f["i"] : nullptr;
        std::string r;
        x.res = res ? &r : nullptr;
        if(!field(x, f["ty"])) { fprintf(stderr, "driver: field type %s\n", type_name(f["ty"]).c_str()); exit(3); }
        if(res) res->push_back(r);
        i++;
    }
}
}

void Dyn::srl_resolve(Context& ctx)
{
    Ex x; x.ctx = &ctx;
    if(ctx.mode() == Mode::Insert) { fields(plan, val, nullptr, x); return; }
    res.clear();
    fields(plan, nullptr, &res, x);
    done = true;
}
void Two::srl_store(StoreContext& ctx) const { Ex x; x.out = &ctx; fields(plan, val, nullptr, x); }
void Two::srl_restore(RestoreContext& ctx)
{
    Ex x; x.in = &ctx;
    res.clear();
    fields(plan, nullptr, &res, x);
    done = true;
}

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const J& c) -> std::string {
        keep_alive.clear();
        switch(c["g"].i) {
            case 0: return pack_0(c); case 1: return pack_1(c); case 2: return pack_2(c);
            case 3: return pack_3(c); case 4: return pack_4(c); default: return pack_5(c);
        }
    });
}
