#include "pc.h"
#include "titles.inc"
// clang-format off
#define ALL X(P01) X(P02) X(P03) X(P04) X(P05) X(P06) X(P07) X(P08) X(P09) X(P10) X(P11) X(P12) X(P13) X(P14) X(P15) X(P16) \
            X(P17) X(P18) X(P19) X(P20) X(P21) X(P22) X(P23) X(P24) X(P25) X(P26)
#define X(id) DECLP(id);
ALL
#undef X
#define X(id) {#id, T_##id, 100000, 10000000, gen_##id, chk_##id},
const std::vector<Prop> kProps = {ALL};
