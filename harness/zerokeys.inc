{ 0x67237fd0, 0x52727028, 0xfb37e1b6, 0x282ae029, 0x04105158, 0x99259490, 0x3c76a06a},
{ 0xd6951ce9, 0x5d05b321, 0xf319c3d9, 0x411ff206, 0x6896adb6, 0x4e362ad9, 0xd3be743c, 0x8d4d5e72},
{ 0x2ee71116, 0xc5654bc3, 0xfe1e2d50, 0x3c6d2ce9, 0x170bc587, 0x758f1acd, 0x84a00cde, 0xc4038edd, 0xfeebe8c5},
{ 0x87390543, 0x2dc4e465, 0x092296c7, 0x37ba67cd, 0x8078ef61, 0xf5169a17, 0x80ec0d21, 0x177207a0, 0x2712b2ed, 0xf467bf17},
