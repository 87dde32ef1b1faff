// Writes a step record with profiles of a body so large that the library does not buffer its rows.
#include "TSpace.hpp"
#include "MStepdata.hpp"
#include <cstdio>
#include <cmath>
#include <exception>
#include <cstdlib>
int main(int argc, char** argv)
{
    const int N = 2200, rows = atoi(argv[2]);
    try {
        Space S;
        S.caption = "c";
        auto b = std::make_shared<TBody>();
        for (int i = 0; i < N; i++) {
            const double t = -2*M_PI*i/N;
            b->alist.emplace_back(cos(t), sin(t), i%2);
        }
        S.BodyList.push_back(b);
        b->doUpdateSegments();
        Stepdata sd(&S, argv[1], true);
        for (int k = 0; k < rows; k++) {
            // noise does not compress: every row is large on the disk, too
            unsigned x = 1 + k;
            for (auto& a: b->alist) {
                x = x*1664525u + 1013904223u; a.Cp = x*1e-9;
                x = x*1664525u + 1013904223u; a.Fr = x*1e-9;
            }
            sd.write();
            if (k % 2) sd.flush();
            S.time = TTime::add(S.time, S.dt);
        }
        sd.close();
    } catch (const char* e) {
        fprintf(stderr, "%s\n", e);
        return 1;
    } catch (const std::exception& e) {
        fprintf(stderr, "%s\n", e.what());
        return 1;
    }
    return 0;
}
