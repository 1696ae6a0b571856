/* Stores and restores C++ objects in all the ways there are. */
#include "typed.h"

thread_local const J* cur_plan = nullptr;
thread_local std::vector<std::shared_ptr<void>> keep_alive;

namespace {

bool field(Ex& x, const J& ty)
{
    return field_leaf(x, ty) || field_seq(x, ty) || field_seq2(x, ty) || field_map(x, ty) || field_ht(x, ty) ||
           field_ptr(x, ty) || field_fix(x, ty) || field_two(x, ty);
}

/* all fields of an object */
void fields(const J* plan, const J* val, std::vector<std::string>* res, Ex x)
{
    if(!plan) { fprintf(stderr, "driver: object without a plan\n"); exit(3); }
    size_t i = 0;
    bool by_pos = (*plan)["pos"].b;
    for(auto& f : (*plan)["f"].a) {
        Name name(f);
        x.name = by_pos ? nullptr : &name.s;
        x.flags = f["opt"].b ? CtxFlags::Optional : CtxFlags::None;
        x.val = val ? &(*val)["e"].a[i] : nullptr;
        x.init = f.has("i") ? &f["i"] : nullptr;
        std::string r;
        x.res = res ? &r : nullptr;
        if(!field(x, f["ty"])) { fprintf(stderr, "driver: field type %s\n", type_name(f["ty"]).c_str()); exit(3); }
        if(res) res->push_back(r);
        i++;
    }
}

} // namespace

void Dyn::srl_resolve(Context& ctx)
{
    Ex x; x.ctx = &ctx;
    if(ctx.mode() == Mode::Insert) { fields(plan, val, nullptr, x); return; }
    res.clear();
    fields(plan, nullptr, &res, x);
    done = true;
}
void Two::srl_store(StoreContext& ctx) const { Ex x; x.out = &ctx; fields(plan, val, nullptr, x); }
void Two::srl_restore(RestoreContext& ctx)
{
    Ex x; x.in = &ctx;
    res.clear();
    fields(plan, nullptr, &res, x);
    done = true;
}

bool root_0(const J& c, std::string& r);
bool root_1(const J& c, std::string& r);
bool root_2(const J& c, std::string& r);
bool root_3(const J& c, std::string& r);
bool root_4(const J& c, std::string& r);
bool root_5(const J& c, std::string& r);

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const J& c) -> std::string {
        keep_alive.clear();
        std::string r;
        if(root_0(c, r) || root_1(c, r) || root_2(c, r) || root_3(c, r) || root_4(c, r) || root_5(c, r)) return r;
        fprintf(stderr, "driver: root type %s\n", type_name(c["ty"]).c_str());
        exit(3);
    });
}
