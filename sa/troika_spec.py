"""The Troika permutation as published: S-box, row and lane shifts, round constants (24 rounds, 9 columns).

The round constants and lane shifts are those with which the published test vectors are reproduced."""
SBOX = (6, 25, 17, 5, 15, 10, 4, 20, 24, 0, 1, 2, 9, 22, 26, 18, 16, 14, 3, 13, 23, 7, 11, 12, 8, 21, 19)
LANES = (19, 13, 21, 10, 24, 15, 2, 9, 3, 14, 0, 6, 5, 1, 25, 22, 23, 20, 7, 17, 26, 12, 8, 18, 16, 11, 4)
ROUNDS = 24
# (positions holding 1, positions holding 2) as 27-bit masks, per round and column
CONST = (
    ((0x7230102, 0x01894c9), (0x057bc22, 0x2084151), (0x0830144, 0x3487699), (0x2421068, 0x49d2e07), (0x3382105, 0x0014a60), (0x0172456, 0x6c0c229), (0x400a044, 0x1b65d38), (0x1211b03, 0x2c204d8), (0x4462bba, 0x3304400)),
    ((0x10000df, 0x6262000), (0x651ab41, 0x0a4541c), (0x1448011, 0x0b039a2), (0x1804006, 0x65c3c08), (0x0359546, 0x14a6019), (0x5ea7210, 0x001810d), (0x5210100, 0x0888480), (0x6e15586, 0x11aa219), (0x21309de, 0x5642200)),
    ((0x3280402, 0x044f3e0), (0x281a03a, 0x4204d81), (0x000fc8c, 0x7180362), (0x02409a4, 0x4c08413), (0x0b3e061, 0x4400b12), (0x6410914, 0x120f243), (0x784000d, 0x0707090), (0x301c825, 0x48a1318), (0x0800400, 0x42412d9)),
    ((0x0506009, 0x7240644), (0x00358f0, 0x5bc2305), (0x423c418, 0x1dc38e3), (0x0258440, 0x19a7838), (0x08ca0c4, 0x1624529), (0x090a488, 0x50a4a05), (0x0e0a204, 0x712097a), (0x114b46b, 0x2030010), (0x11034b0, 0x0810000)),
    ((0x3031d4a, 0x4f40290), (0x49e060b, 0x3615100), (0x0314663, 0x344b984), (0x6a9a0a9, 0x0444100), (0x4a8865f, 0x0152180), (0x0219488, 0x51a6a23), (0x0340bec, 0x4409410), (0x4828021, 0x20d6c56), (0x36222b3, 0x41d0800)),
    ((0x6a60502, 0x0193069), (0x102020c, 0x2386801), (0x640d022, 0x017261d), (0x18d5c18, 0x6308264), (0x2dcc400, 0x022033f), (0x339903d, 0x4404580), (0x2211642, 0x58c68b8), (0x50a481c, 0x030b042), (0x1a4e012, 0x241098c)),
    ((0x419984a, 0x3462430), (0x038411a, 0x3c58e65), (0x001119d, 0x5fe6200), (0x2462084, 0x5a08d7a), (0x2ca1725, 0x0248882), (0x012580e, 0x08925d0), (0x20b8069, 0x5a03314), (0x10b4e93, 0x030002c), (0x00eda11, 0x0000088)),
    ((0x360298c, 0x085c032), (0x41400ba, 0x00b6e05), (0x6044441, 0x1630900), (0x4c38b0c, 0x3146412), (0x27ea331, 0x1801882), (0x2581898, 0x4844000), (0x2a9a340, 0x410481e), (0x0224212, 0x0d48d2c), (0x2017901, 0x4b6060e)),
    ((0x0042089, 0x562d614), (0x4582c88, 0x182c216), (0x6028887, 0x0fd3148), (0x263b04e, 0x4180a31), (0x06130b1, 0x6960b00), (0x0490117, 0x184ac00), (0x20522c4, 0x4b8cc3a), (0x33582c2, 0x0885c2c), (0x4176c60, 0x0080301)),
    ((0x6190346, 0x100fc88), (0x3008011, 0x4807fe2), (0x5022022, 0x271d4c0), (0x180e917, 0x62104a8), (0x0400248, 0x0100925), (0x5022584, 0x259d070), (0x020136d, 0x48c0402), (0x00000db, 0x6060000), (0x6012589, 0x058d014)),
    ((0x09c11c2, 0x403ec38), (0x04fe460, 0x0801310), (0x3194c93, 0x022022c), (0x1011291, 0x48e4864), (0x4084818, 0x2009242), (0x41d20b2, 0x2220700), (0x2008008, 0x4905935), (0x7000006, 0x040f6c0), (0x5bd0391, 0x0025c42)),
    ((0x768f080, 0x017030f), (0x2142080, 0x5e0c656), (0x6a08240, 0x0144d3e), (0x422922f, 0x3454410), (0x1a58b81, 0x2520448), (0x24200a4, 0x18d885a), (0x4445640, 0x2a00002), (0x0d5a0a0, 0x0200f48), (0x2205000, 0x5d70f0a)),
    ((0x0013d90, 0x2d20205), (0x24b0116, 0x184ac48), (0x1c5c640, 0x2300036), (0x031dca1, 0x708210e), (0x5d74300, 0x0081099), (0x50a6784, 0x0d1883a), (0x49c0a6c, 0x1411090), (0x311462e, 0x06699c1), (0x0110821, 0x168234c)),
    ((0x4cac280, 0x1150109), (0x7022784, 0x0998032), (0x148254c, 0x60708b3), (0x169502f, 0x29007d0), (0x62e0c21, 0x041204c), (0x458236a, 0x1209c81), (0x5d5064a, 0x0281825), (0x0808300, 0x63b207b), (0x500f243, 0x2650d14)),
    ((0x069ba06, 0x4024071), (0x401286a, 0x27a9580), (0x4224966, 0x0009681), (0x278d4c4, 0x4032102), (0x304d288, 0x0422d63), (0x5803683, 0x003c954), (0x0b92a07, 0x2421068), (0x2184aa8, 0x027b054), (0x08fca81, 0x1102428)),
    ((0x4112206, 0x062d4e0), (0x36a17b1, 0x0802804), (0x421b084, 0x2160222), (0x2022a04, 0x17805b3), (0x2c30022, 0x5143d4c), (0x3422233, 0x0bd8c00), (0x2d93c0c, 0x004c0a2), (0x2a9a260, 0x450411b), (0x02a5302, 0x1c10cbc)),
    ((0x43b04e0, 0x3c0e31f), (0x7620685, 0x098a812), (0x0401e90, 0x0aa4165), (0x04a2812, 0x3a4c445), (0x295308e, 0x428cc31), (0x500c082, 0x2f43928), (0x1200406, 0x014b080), (0x20d6a8c, 0x4b28472), (0x65204ec, 0x1a98a13)),
    ((0x0469b3c, 0x2004080), (0x0454106, 0x738b089), (0x08d12a2, 0x702a55d), (0x20040c1, 0x1c78912), (0x02481ef, 0x29a1400), (0x5905000, 0x240adaa), (0x1082010, 0x2279706), (0x0320064, 0x70d4e08), (0x609f510, 0x0560a8c)),
    ((0x0183848, 0x7e60406), (0x0408855, 0x49b758a), (0x0580192, 0x5050a6c), (0x6923c87, 0x1488178), (0x780c288, 0x0762961), (0x2816022, 0x4661f08), (0x0800102, 0x0293269), (0x7944b28, 0x02230d4), (0x108589c, 0x6b42240)),
    ((0x20c0419, 0x571d102), (0x6460400, 0x0280848), (0x0493a06, 0x0a244f1), (0x2590800, 0x5046661), (0x5408000, 0x0843f78), (0x20b24b2, 0x0000149), (0x2589838, 0x4016484), (0x0687244, 0x3800122), (0x63f1c01, 0x1c0206a)),
    ((0x310c21c, 0x4ca3cc3), (0x54bd2a4, 0x004010b), (0x08412a2, 0x443e454), (0x1103106, 0x0a904b0), (0x587482c, 0x01811d0), (0x2001240, 0x088480a), (0x0101c02, 0x5ed0191), (0x51146e5, 0x2609910), (0x000f938, 0x73006c0)),
    ((0x0542f30, 0x502d043), (0x70990a4, 0x0544342), (0x2612bd3, 0x414400c), (0x4660a9a, 0x2184524), (0x026962b, 0x2416014), (0x24200c8, 0x1059b11), (0x1454752, 0x6b88000), (0x6c05582, 0x13b823d), (0x027a110, 0x2d850c6)),
    ((0x4144908, 0x30102f6), (0x3914abc, 0x40e1142), (0x0168218, 0x28059a7), (0x51e00d2, 0x2406729), (0x0105901, 0x2a1202a), (0x40e360d, 0x3c04122), (0x0593845, 0x4a6442a), (0x20de500, 0x0c21a1c), (0x4488183, 0x2a73a20)),
    ((0x6801483, 0x030cb74), (0x02492ed, 0x1010402), (0x4043290, 0x1e24444), (0x43206a9, 0x241f014), (0x71c01b3, 0x0006e44), (0x2080409, 0x46441b6), (0x3042430, 0x441d242), (0x09e788a, 0x5208454), (0x0037862, 0x0b80791)),
)
