/* Streams that are not usual */
#ifndef VERIF_STREAMS_H
#define VERIF_STREAMS_H
#include <cstdint>
#include <cstdlib>
#include <streambuf>
#include <string>
#include <vector>
#include <unistd.h>

/* Hands out few bytes at a time; cannot seek. */
struct Drip : std::streambuf {
    std::vector<uint8_t> data;
    size_t pos = 0;
    uint32_t seed;
    uint32_t most;
    std::vector<char> chunk;
    Drip(const std::vector<uint8_t>& b, uint32_t seed_, uint32_t most_) : data(b), seed(seed_), most(most_) { }
    int_type underflow() override
    {
        if(pos >= data.size()) return traits_type::eof();
        seed = seed * 1664525u + 1013904223u;
        size_t n = 1 + (seed >> 8) % most;
        if(n > data.size() - pos) n = data.size() - pos;
        chunk.assign(data.begin() + (long)pos, data.begin() + (long)(pos + n));
        pos += n;
        setg(chunk.data(), chunk.data(), chunk.data() + n);
        return traits_type::to_int_type(chunk[0]);
    }
};

/* Takes what is written to it; cannot seek, does not know its position. */
struct Pipe : std::streambuf {
    std::string data;
    int_type overflow(int_type c) override
    {
        if(!traits_type::eq_int_type(c, traits_type::eof())) data += traits_type::to_char_type(c);
        return traits_type::not_eof(c);
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override { data.append(s, (size_t)n); return n; }
};

/* a directory of this process, removed at its end */
inline const std::string& scratch()
{
    static struct Dir {
        std::string path;
        Dir() { char t[] = "/tmp/vdrv-XXXXXX"; if(!mkdtemp(t)) abort(); path = t; }
        ~Dir() { unlink((path + "/out").c_str()); rmdir(path.c_str()); }
    } dir;
    return dir.path;
}
#endif
