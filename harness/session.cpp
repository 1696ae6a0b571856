#include "session.h"

int main(int argc, char** argv)
{
    return drive(argc, argv, [](const J& c) -> std::string { return run(c); });
}
