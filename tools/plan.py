# property -> explorer modules deciding it
def mpi(*ms): return [dict(variant="mpi", module=m) for m in ms]
def tcp2(*ms): return [dict(variant="tcp2", module=m) for m in ms]
def tcp(*ms): return [dict(variant="tcp", module=m) for m in ms]
def deep(*ms): return [dict(m, tier="thorough") for m in ms]
PLAN = {
 "R01": mpi("r01"),
 "T01": mpi("t01a", "t01b", "t01c", "t01d", "t01e", "t01f"),
 "T02": mpi("t02a", "t02b", "t02c", "t02d", "t02e", "t02f") + tcp2("t02b", "t02c", "t02d") + tcp("t02b", "t02d"),
 "T03": mpi("t03a", "t03b", "t03c"),
 "T04": mpi("t04a", "t04b", "t04c") + tcp2("t04a"),
 "T05": mpi("t05a", "t05b", "t05c"),
 "T06": mpi("t06a") + tcp2("t06a") + tcp("t06a"),
 "T07": mpi("t07a", "t07b"),
 "P01": mpi("p01a", "p01b"),
 "P02": mpi("p02a", "p02b"),
 "P03": mpi("p03a", "p03b", "p03c"),
 "P04": mpi("p04a", "p04b", "p04c", "p04d", "p04e"),
 "P05": mpi("p05a"),
 "M03": mpi("m03a", "m03b"),
 "E01": tcp2("e01a", "e01b"),
 "E02": tcp2("e02a", "e02b", "t01c", "t01e", "t02b", "t02c", "t02d", "t03b", "t01a", "t02e", "t04a") + deep(*tcp2("t06a", "t05a", "t01b", "t01d", "t02a", "t03a", "t05b", "t04b")),
 "E03": tcp2("e03a", "e03b"),
 "E04": tcp2("e04a", "e04b"),
 "E05": tcp2("e05a", "e05b", "e05c"),
 "L01": tcp("l01a", "l01b", "l01c"),
 "L02": tcp("l02a", "l02b", "t01c", "t01e", "t02b", "t02d", "t02e", "t03b", "g01a", "g01c", "g01d", "d01b") + deep(*tcp("g01b", "t01a", "t01b", "t01d", "t02a", "t02c", "t03a", "t03c", "t05a", "t06a", "k02a", "k02b")),
 "D01": mpi("d01a", "d01b", "d01c") + tcp2("d01b", "d01c") + tcp("d01b"),
 "M01": mpi("m01a"),
 "M02": mpi("m02a"),
 "G01": mpi("g01a", "g01b", "g01c", "g01d") + tcp2("g01a", "g01b", "g01c", "g01d") + tcp("g01a", "g01c", "g01d"),
 "X01": mpi("x01a", "x01b", "x01c"),
 "K01": mpi("k01a", "k01b"),
 "K03": mpi("k03a", "k03b") + tcp2("k03a") + tcp("k03a"),
 "K02": mpi("k02a", "k02b") + tcp2("e04a") + deep(*tcp("k02a", "k02b")),
}
ASSUME = {"*": ["The library is compiled from /repo's working tree with gcc -O1 and instrumented memory accesses; system calls and MPI are replaced by the explorer.",
                "Bounds as printed per module; beyond them nothing is claimed."]}
