#ifdef VARIANT_TCP
M(l01a) M(l01b) M(l01c) M(l02a) M(l02b)
#endif
#ifdef VARIANT_TCP2
M(e01a) M(e01b) M(e02a) M(e02b) M(e03a) M(e03b) M(e04a) M(e04b) M(e05a) M(e05b) M(e05c)
#endif
M(r01) M(p01a) M(p01b) M(p02a) M(p02b) M(p03a) M(p03b) M(p03c) M(p04a) M(p04b) M(p04c) M(p04d) M(p04e) M(p05a)
M(t01a) M(t01b) M(t01c) M(t01d) M(t01e) M(t01f)
M(t02a) M(t02b) M(t02c) M(t02d) M(t02e) M(t02f)
M(t03a) M(t03b) M(t03c) M(t04a) M(t04b) M(t04c) M(t05a) M(t05b) M(t05c) M(t06a) M(t07a) M(t07b)
M(k01a) M(k01b) M(k02a) M(k02b) M(k03a) M(k03b) M(m03a) M(m03b)
M(d01a) M(d01b) M(d01c)
M(m01a) M(m02a) M(g01a) M(g01b) M(g01c) M(g01d) M(x01a) M(x01b) M(x01c)
