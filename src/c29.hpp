#pragma once
#include <cstddef>
#include <cstdint>
namespace c29 {
struct Req {
    int ndocs;
    int reader[3];
    const char *doc[3];
    size_t len[3];
    int ix, env, spread, fixed, internals;
    double v[8];
    int accepted; // out: documents read without error
};
}
#ifndef C29_RUN
#define C29_RUN c29_run
#endif
