/* Histories (see session.h) in threads of their own:
 *   {"th":[{"ops":[..]}..]} -> {"st":"ok","th":[{"st":"ok","rs":[..]}..]} */
#include "session.h"
#include <thread>

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const J& c) -> std::string {
        auto& hs = c["th"].a;
        std::vector<std::string> rs(hs.size());
        std::vector<std::thread> ts;
        std::atomic<size_t> ready { 0 };
        completed = 0;
        for(size_t k = 0; k < hs.size(); k++) {
            ts.emplace_back([&, k] {
                /* all at once */
                ready++;
                while(ready < hs.size()) { }
                rs[k] = run(hs[k]);
            });
        }
        for(auto& t : ts) t.join();
        return O().str("st", "ok").raw("th", jlist(rs)).end();
    }, 120);
}
