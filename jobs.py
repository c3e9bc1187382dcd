"""The checks: which harnesses decide which property, and within what bounds."""

COMMON_ASSUMPTIONS = []

def J(name, src, entries=None, **kw):
    d = dict(name=name, src=src, **kw)
    if entries:
        d["entries"] = entries
    return d

GC = ["-DSXMEM=sx_memory_gc", "-DSXGC"]   # garbage collection transience, nothing freed
GCE = ["-DSXMEM=sx_memory_gce", "-DSXGC"] # the same, relaxed sizes embedded in the nodes

# hash containers of up to 12 keys in nodes with several values and children
WIDE = ["-DSXP=12", "-DSXHOW=4", "-DSXSTART=12", "-DSXTRACK", "-DSXT=elem"]
E3 = lambda *n: ["h_%s%s" % (c, x) for x in n for c in ("map", "set", "table")]

# joined trees
DEEP3 = ["-DSXB=3", "-DSXBL=2", "-DSXN1={5,6,9,21,37}", "-DSXD1={0,2,3,5}", "-DSXP1={0,2}", "-DSXN2={6,9,21}", "-DSXD2={0,2,3}", "-DSXP2={0,3}"]
DEEPT = ["-DSXN1={1,3,5,8,11,13,17,35}", "-DSXD1={0,1,3,6}", "-DSXP1={0,1,2,5}", "-DSXN2={1,3,5,9,11}", "-DSXD2={0,1,3,6}", "-DSXP2={0,2,5}"]

CHECKS = {
    "C01": dict(
        jobs=[J("b2l1", "c01_vector.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXN=44"], tdefs=["-DSXK=4"], weight=3),
              J("b3l2e", "c01_vector.cpp", defs=["-DSXB=3", "-DSXBL=2", "-DSXN=44", "-DSXT=elem"], tdefs=["-DSXK=4"], weight=3),
              J("b1l1", "c01_vector.cpp", defs=["-DSXB=1", "-DSXBL=1", "-DSXN=36", "-DSXT=elem"], tdefs=["-DSXK=4"], weight=2),
              J("b2l0", "c01_vector.cpp", defs=["-DSXB=2", "-DSXBL=0", "-DSXN=22"], tdefs=["-DSXK=4"], weight=2),
              J("big", "c01_vector.cpp", ["h_boundary"], defs=["-DSXBIG=", "-DSXT=uint64_t"], tdefs=["-USXBIG", "-DSXBIG=,L*F*F+L"]),
              J("bigc", "c01_vector.cpp", ["h_boundary"], defs=["-DSXBIG=", "-DSXT=uint32_t"])],
        bounds="every length 0..44 (branching 4/leaf 2 and 8/4), 0..36 (2/2), 0..22 (4/1); element values arbitrary 32-bit (one arbitrary "
               "value per element); every index; every take length; every chain of 3 operations (thorough: 4) out of push_back, set, update, take, "
               "grow-past-a-leaf from every length 0..12; default branching at sizes within 2 of leaf, 2 leaves, leaf*32, +leaf, 2*leaf*32+leaf"),
    "C02": dict(
        jobs=[J("b2l1", "c02_flex.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXPARTS=3", "-DSXSLICE=20", "-DSXA2=6", "-DSXK=2"], tdefs=["-DSXK=3"], weight=3),
              J("b3l2e", "c02_flex.cpp", defs=["-DSXB=3", "-DSXBL=2", "-DSXT=elem", "-DSXPARTS=3", "-DSXSLICE=20", "-DSXA2=6", "-DSXK=2"], tdefs=["-DSXK=3"], weight=3),
              J("b2l0", "c02_flex.cpp", defs=["-DSXB=2", "-DSXBL=0", "-DSXPAIR=24", "-DSXPARTS=3", "-DSXSLICE=14", "-DSXA2=6", "-DSXK=2"], tdefs=["-DSXK=3"], weight=2),
              J("b2l1x", "c02_flex.cpp", ["h_pair", "h_slice", "h_op1", "h_opn"], defs=["-DSXB=2", "-DSXBL=1", "-DSXPAIR=24", "-DSXPARTS=3", "-DSXSLICE=14", "-DSXA2=5", "-DSXK=2", "-DSXMEM=sx_memory_e"], tdefs=["-DSXK=3"], weight=2),
              J("deep", "c02_deep.cpp", ["h_op"], defs=["-DSXB=2", "-DSXBL=1", "-DIMMER_DEBUG_DEEP_CHECK=1", "-DSXDN={11,37}", "-DSXMODES={0,1}"], tdefs=["-DSXDN={11,13,21,35,37}"], weight=2),
              J("deep3", "c02_deep.cpp", ["h_op"], defs=["-DSXB=3", "-DSXBL=2", "-DSXT=elem", "-DSXDN={21,75}", "-DSXMODES={0,1}"], tdefs=["-DSXDN={6,9,21,37,75}"], weight=2),
              J("big", "c02_deep.cpp", ["h_big"], defs=["-DSXB=5", "-DSXBL=1", "-DSXBIGN={70,137,2100}"], weight=1),
              J("bigd", "c02_deep.cpp", ["h_big"], defs=["-DSXB=5", "-DSXBL=5", "-DSXBIGN={1100}"], tdefs=["-DSXBIGN={1100,2500,5000}"], weight=1)],
        bounds="one operation at the boundaries of flex_vectors of 70, 137, 1100, 2100 elements with the default branching; one operation at every position of flex_vectors that are relaxed trees of two to four levels (up to 60..100 elements) with underfull nodes inside; branching 4/leaf 2, 8/4, 4/1 and 4/2 with embedded size tables: every pair of lengths 0..30 (24) with every prefix dropped from either side; concatenations of 3 parts that were themselves sliced; every slice of a slice of lengths 0..20 (14), then growing at both ends; one arbitrary operation (push_back, push_front, set, update, take, drop, insert of an element or a value, erase of an element or a range, +, self +) at every position of every relaxed shape up to 11 elements; every chain of 2 operations (thorough: 3) from every shape up to 6 (5) elements; arbitrary values"),
    "C03": dict(
        jobs=[J("b2l1", "c03_persist.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXA=4"], tdefs=["-DSXFULL=1", "-DSXA=5"], weight=3),
              J("b2l1e", "c03_persist.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXT=elem", "-DSXMEM=sx_memory_u", "-DSXA=3", "-DSXLF=6"],
                tdefs=["-DSXFULL=1", "-DSXA=5"], weight=3),
              J("array", "c03_persist.cpp", ["h_array"], defs=["-DSXARRAY", "-DSXNOFLEX"], tdefs=["-DSXFULL=1"], weight=1),
              J("inter", "c23_interleave.cpp", ["h_vector", "h_flex"], defs=["-DSXB=2", "-DSXBL=1", "-DSXA=4", "-DSXK=2"], tdefs=["-DSXK=3", "-DSXA=3"], weight=2),
              J("deepop", "c02_deep.cpp", ["h_op"], defs=["-DSXB=2", "-DSXBL=1", "-DSXDN={13}", "-DSXMODES={0,2,3}"], tdefs=["-DSXDN={11,13,21,37}"], weight=1),
              J("b1l1", "c03_persist.cpp", ["h_vector", "h_vector_long"], defs=["-DSXB=1", "-DSXBL=1", "-DSXT=elem", "-DSXA=5"], tdefs=["-DSXL=30"], weight=1)],
        bounds="vectors of up to 20..40 elements with two children per node (up to six levels); one operation at every position of flex_vectors that are relaxed trees of two to four levels (up to 60..100 elements) with underfull nodes inside; branching 4, leaves of 2: every vector of up to 5 elements and every flex_vector of up to 5 elements in regular, dropped and "
               "concatenated shapes, followed by every pair of derivations (l-value, r-value sharing or owning its source, transient with a "
               "persistent() in the middle, chain of temporaries; positions at the ends and middle for the second one), after which every value "
               "so far is compared with the array it was; every vector up to 16 and flex_vector up to 8 elements with one derivation; arrays up to 5; "
               "arbitrary element values; tracked elements in the second job; interleavings of two transients and values derived from one another"),
    "C04": dict(
        jobs=[J("b2l1", "c04_transient.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXVN=36"], weight=3),
              J("b3l2e", "c04_transient.cpp", defs=["-DSXB=3", "-DSXBL=2", "-DSXT=elem", "-DSXMEM=sx_memory_u", "-DSXVN=36"], weight=3),
              J("b2l1x", "c04_transient.cpp", ["h_flex_tr", "h_flex_one", "h_flex_chain"], defs=["-DSXB=2", "-DSXBL=1", "-DSXMEM=sx_memory_e", "-DSXT=elem", "-DSXVN=14", "-DSXA=3"], weight=2),
              J("inter", "c23_interleave.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXA=4", "-DSXK=2", "-DSXT=elem"], tdefs=["-DSXK=3", "-DSXA=3"], weight=3),
              J("arrinter", "c23_interleave.cpp", defs=["-DSXARRAY", "-DSXA=3", "-DSXK=2"], tdefs=["-DSXK=3"], weight=1),
              J("deep", "c04_deep.cpp", defs=["-DSXB=2", "-DSXBL=1"], tdefs=DEEPT, weight=2),
              J("array", "c04_transient.cpp", defs=["-DSXARRAY"], weight=1),
              J("deepop", "c02_deep.cpp", ["h_op"], defs=["-DSXB=2", "-DSXBL=1", "-DSXDN={21}", "-DSXMODES={1,2,3}"], tdefs=["-DSXDN={11,13,21,37}"], weight=1),
              J("b1l1", "c04_transient.cpp", ["h_vector_tr", "h_vector_one", "h_vector_chain"], defs=["-DSXB=1", "-DSXBL=1", "-DSXT=elem", "-DSXVN=34", "-DSXA=6"], tdefs=["-DSXA=10"], weight=1)],
        bounds="vectors of up to 20..40 elements with two children per node (up to six levels); one operation at every position of flex_vectors that are relaxed trees of two to four levels (up to 60..100 elements) with underfull nodes inside; trees of two or three levels with underfull nodes, owned by the transient or not, joined in every way and used on; every vector up to 36 elements with every single operation, up to 7 elements with 3 operations on a transient (persistent() in the middle) or a chain of r-values; "
               "flex_vectors up to 7..8 elements in regular, dropped and concatenated shapes with 2 operations (every position), two transients and values derived from one another in any order "
               "(2 steps, thorough 3); embedded size tables; arrays up to 12; every operand of append and prepend fresh, shared or consumed; arbitrary values"),
    "C12": dict(
        jobs=[J("b2l1", "c12_memory.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXT=elem", "-DSXVN=26"], tdefs=["-DSXA=4", "-DSXKF=2"], weight=3),
              J("b3l2", "c12_memory.cpp", defs=["-DSXB=3", "-DSXBL=2", "-DSXT=elem", "-DSXMEM=sx_memory_u", "-DSXVN=26", "-DSXK=1"],
                tdefs=["-DSXK=2", "-DSXA=5", "-DSXAF=9"], weight=3),
              J("b2l1x", "c12_memory.cpp", ["h_flex_alone", "h_flex_pair", "h_flex"], defs=["-DSXB=2", "-DSXBL=1", "-DSXT=elem", "-DSXMEM=sx_memory_e", "-DSXVN=20", "-DSXK=1"], tdefs=["-DSXK=2", "-DSXA=4"], weight=2),
              J("array", "c12_memory.cpp", defs=["-DSXARRAY", "-DSXT=elem"], tdefs=["-DSXFULL=1"], weight=1),
              J("trans", "c04_transient.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXT=elem", "-DSXVN=18", "-DSXA=4"], weight=2),
              J("arrtrans", "c16_array.cpp", ["h_chain", "h_transient", "h_ctor"], defs=["-DSXT=elem", "-DSXN=16", "-DSXK=3"], weight=1),
              J("deep", "c04_deep.cpp", defs=["-DSXT=elem"] + DEEP3, weight=2),
              J("nested", "c25_nested.cpp", ["h_vector", "h_flex", "h_array"], defs=["-DSXB=2", "-DSXBL=1", "-DSXK=2"], weight=1),
              J("deepop", "c02_deep.cpp", ["h_op"], defs=["-DSXB=2", "-DSXBL=1", "-DSXT=elem", "-DSXDN={11,21}", "-DSXMODES={0,1,2}"], tdefs=["-DSXDN={11,13,21,37}", "-USXMODES", "-DSXMODES={0,1,2,3}"], weight=1),
              J("big", "c02_deep.cpp", ["h_big"], defs=["-DSXT=elem", "-DSXB=5", "-DSXBL=1"], tdefs=["-DSXBIGN={70,137,2100}"], weight=1),
              J("b1l1", "c12_memory.cpp", ["h_vector_long", "h_vector_alone", "h_vector_pair"], defs=["-DSXB=1", "-DSXBL=1", "-DSXT=elem", "-DSXVN=34"], weight=1)],
        bounds="vectors of up to 20..40 elements with two children per node (up to six levels); one operation at every position of flex_vectors that are relaxed trees of two to four levels (up to 60..100 elements) with underfull nodes inside; branching 4/leaf 2 and 8/4, tracked elements, every heap block counted and freed with its allocated size: every value up to 26 elements "
               "(flex_vector 13, relaxed shapes) alone; every such vector up to 13 and flex_vector up to 7 elements with one derived value, dropped in "
               "either order; every history of 2 derivations from vectors up to 3 elements (1 derivation: 14; flex_vector: 7), values dropped in every order, survivors "
               "compared after every drop; one operation and chains on transients and r-values as C04, C16; containers nested in themselves as C25"),
    "C14": dict(
        jobs=[J("b2l1", "c14_faults.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXT=elem", "-DSXVN=14"], weight=3),
              J("b3l2", "c14_faults.cpp", defs=["-DSXB=3", "-DSXBL=2", "-DSXT=elem", "-DSXMEM=sx_memory_u", "-DSXVN=14"], weight=3),
              J("b2l1x", "c14_faults.cpp", ["h_flex_lvalue", "h_flex_mutating", "h_flex_construct", "h_flex_deep"], defs=["-DSXB=2", "-DSXBL=1", "-DSXT=elem", "-DSXMEM=sx_memory_e", "-DSXVN=14"], weight=2),
              J("gc", "c14_faults.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXT=elem", "-DSXVN=10", "-DSXA=5"] + GC, tdefs=["-DSXVN=14", "-DSXA=7"], weight=2),
              J("array", "c14_faults.cpp", defs=["-DSXARRAY", "-DSXT=elem"], weight=1),
              J("b1l1", "c14_faults.cpp", ["h_vector_lvalue", "h_vector_mutating"], defs=["-DSXB=1", "-DSXBL=1", "-DSXT=elem", "-DSXVN=20"], weight=1)],
        bounds="vectors of up to 20..40 elements with two children per node (up to six levels); one operation, in every way (l-value; r-value owning, sharing or derived; transient fresh or already mutated; move_persistent) on every vector up to 14 and flex_vector up to 7 elements in regular, dropped, concatenated shapes, arrays up to 6, every constructor; concatenation and slicing of deep trees; the index of the allocation, element copy or callback that throws is symbolic, over all of them; reference counted and garbage collected"),
    "C05": dict(
        jobs=[J("b5full", "c05_hash.cpp", defs=["-DSXB=5", "-DSXP=2", "-DSXK=2", "-DSXSTART=2", "-DSXHOW=0"], tdefs=["-DSXK=3"], weight=3),
              J("b2low", "c05_hash.cpp", defs=["-DSXB=2", "-DSXP=3", "-DSXK=2", "-DSXSTART=1", "-DSXHOW=1"], tdefs=["-DSXSTART=3", "-DSXP=4"], weight=3),
              J("b5two", "c05_hash.cpp", defs=["-DSXB=5", "-DSXP=4", "-DSXK=2", "-DSXSTART=3", "-DSXHOW=2", "-DSXTRACK", "-DSXT=elem"],
                tdefs=["-DSXK=3", "-DSXP=5"], weight=3),
              J("b6low", "c05_hash.cpp", defs=["-DSXB=6", "-DSXP=2", "-DSXK=2", "-DSXSTART=2", "-DSXHOW=1"], tdefs=["-DSXP=3"], weight=2),
              J("wide5", "c05_hash.cpp", defs=["-DSXB=5", "-DSXK=1", "-DSXROT=13"] + WIDE, tdefs=["-DSXK=2", "-DSXROT=3"], weight=2),
              J("wide2", "c05_hash.cpp", defs=["-DSXB=2", "-DSXK=1"] + WIDE, tdefs=["-DSXK=1", "-DSXROT=13"], weight=2)],
        bounds="branching 32 with arbitrary 64-bit hashes: pools of 2 keys; branching 4: 3 keys whose two lowest digits and top bit are arbitrary; branching 32 with 4 keys of two hash classes (collisions); branching 64: 2 keys; every chain of 2 operations (set: 3) from every container of up to 1..3 of those keys; filling with every key of the pool; arbitrary mapped values; tracked keys and values in one job; and, of containers of up to 12 keys in a fixed wide tree (nodes of several values and children, three equal hashes, hashes that part at the last digit) built in several rotations of one order, every single operation"),
    "C06": dict(
        jobs=[J("b5two", "c06_hpersist.cpp", defs=["-DSXB=5", "-DSXP=3", "-DSXK=2", "-DSXSTART=1", "-DSXHOW=2"], tdefs=["-DSXSTART=2"], weight=3),
              J("b2two", "c06_hpersist.cpp", defs=["-DSXB=2", "-DSXP=3", "-DSXK=1", "-DSXSTART=3", "-DSXHOW=2", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXP=4"], weight=3),
              J("b2low", "c06_hpersist.cpp", defs=["-DSXB=2", "-DSXP=2", "-DSXK=1", "-DSXSTART=2", "-DSXHOW=1"], tdefs=["-DSXP=3"], weight=3),
              J("b5full", "c06_hpersist.cpp", defs=["-DSXB=5", "-DSXP=2", "-DSXK=1", "-DSXSTART=1", "-DSXHOW=0"], tdefs=["-DSXP=3"], weight=3),
              J("wide5", "c06_hpersist.cpp", defs=["-DSXB=5", "-DSXK=1", "-DSXROT=2"] + WIDE, tdefs=["-DSXROT=13"], weight=2),
              J("inter", "c23_interleave.cpp", ["h_map", "h_set", "h_table"], defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=2", "-DSXHOW=2", "-DSXK=2"], tdefs=["-DSXP=3"], weight=2),
              J("own5", "c07_htransient.cpp", E3("_own"), defs=["-DSXB=5", "-DSXK=1", "-DSXROT=1"] + WIDE, tdefs=["-DSXROT=13"], weight=1)],
        bounds="in the wide tree, two operations on what holds its own path to one key and shares the rest with another value; key pools as C05 (3 keys of arbitrary or two-class hashes; 2 with arbitrary hashes): every container of up to 1..3 keys, up to 2 derivations in every way (l-value, r-value sharing or owning, transient with persistent() in the middle); every value so far compared afterwards; and, of containers of up to 12 keys in a fixed wide tree (nodes of several values and children, three equal hashes, hashes that part at the last digit) built in several rotations of one order, one derivation of every kind; interleavings of two transients and values derived from one another"),
    "C07": dict(
        jobs=[J("b5two", "c07_htransient.cpp", defs=["-DSXB=5", "-DSXP=3", "-DSXK=2", "-DSXSTART=1", "-DSXHOW=2", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXK=3"], weight=3),
              J("b2two", "c07_htransient.cpp", defs=["-DSXB=2", "-DSXP=3", "-DSXK=1", "-DSXSTART=3", "-DSXHOW=2"], tdefs=["-DSXK=2"], weight=3),
              J("b2low", "c07_htransient.cpp", defs=["-DSXB=2", "-DSXP=2", "-DSXK=1", "-DSXSTART=2", "-DSXHOW=1"], tdefs=["-DSXP=3"], weight=3),
              J("inter", "c23_interleave.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=2", "-DSXHOW=2", "-DSXK=2", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXP=3"], weight=2),
              J("b5full", "c07_htransient.cpp", defs=["-DSXB=5", "-DSXP=2", "-DSXK=1", "-DSXSTART=1", "-DSXHOW=0"], tdefs=["-DSXK=2"], weight=3),
              J("wide5", "c07_htransient.cpp", defs=["-DSXB=5", "-DSXK=1", "-DSXROT=2"] + WIDE, tdefs=["-DSXROT=13"], weight=2),
              J("wide2", "c07_htransient.cpp", E3("_one", "_own"), defs=["-DSXB=2", "-DSXK=1"] + WIDE, tdefs=["-DSXROT=13"], weight=2)],
        bounds="in the wide tree, two operations on what holds its own path to one key and shares the rest with another value; key pools as C05: from every container of up to 1..3 keys, 1..2 operations (thorough: 2..3) on a transient with persistent() between them and use after it, chains on r-values, single operations against the l-value result; and interleavings of two transients and values derived from one another; and, of containers of up to 12 keys in a fixed wide tree (nodes of several values and children, three equal hashes, hashes that part at the last digit) built in several rotations of one order, one operation in every way"),
    "C13": dict(
        jobs=[J("b5two", "c13_hmemory.cpp", defs=["-DSXB=5", "-DSXP=3", "-DSXK=2", "-DSXSTART=1", "-DSXHOW=2", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXSTART=2"], weight=3),
              J("b2two", "c13_hmemory.cpp", defs=["-DSXB=2", "-DSXP=3", "-DSXK=1", "-DSXSTART=3", "-DSXHOW=2", "-DSXTRACK", "-DSXT=elem", "-DSXMEM=sx_memory_u"], tdefs=["-DSXP=4"], weight=3),
              J("b2low", "c13_hmemory.cpp", defs=["-DSXB=2", "-DSXP=2", "-DSXK=1", "-DSXSTART=2", "-DSXHOW=1", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXP=3"], weight=3),
              J("wide5", "c13_hmemory.cpp", defs=["-DSXB=5", "-DSXK=1", "-DSXROT=1"] + WIDE, tdefs=["-DSXROT=13"], weight=2),
              J("trans5", "c07_htransient.cpp", defs=["-DSXB=5", "-DSXK=1", "-DSXROT=1"] + WIDE, tdefs=["-DSXROT=13"], weight=1),
              J("inter", "c23_interleave.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=2", "-DSXHOW=2", "-DSXK=2", "-DSXTRACK", "-DSXT=elem", "-DSXMEM=sx_memory_u"], weight=1),
              J("nested", "c25_nested.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXK=2"], weight=1)],
        bounds="key pools as C06 with tracked keys and values and every block counted: one derivation of every kind from every container of up to 1..3 keys, values dropped in every order; and, of containers of up to 12 keys in a fixed wide tree (nodes of several values and children, three equal hashes, hashes that part at the last digit) built in several rotations of one order, one derivation of every kind; transients and r-values as C07, interleaved with one another; containers nested in themselves as C25"),
    "C15": dict(
        jobs=[J("b5two", "c15_hfaults.cpp", E3("_lvalue", "_mutating"), defs=["-DSXB=5", "-DSXP=4", "-DSXK=1", "-DSXSTART=3", "-DSXHOW=2", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXSTART=4"], weight=3),
              J("b2two", "c15_hfaults.cpp", E3("_lvalue", "_mutating"), defs=["-DSXB=2", "-DSXP=3", "-DSXK=1", "-DSXSTART=2", "-DSXHOW=2", "-DSXTRACK", "-DSXT=elem", "-DSXMEM=sx_memory_u"], tdefs=["-DSXSTART=3"], weight=3),
              J("gc", "c15_hfaults.cpp", E3("_lvalue", "_mutating"), defs=["-DSXB=5", "-DSXP=4", "-DSXK=1", "-DSXSTART=2", "-DSXHOW=2", "-DSXTRACK", "-DSXT=elem"] + GC, weight=2),
              J("derived", "c15_hfaults.cpp", E3("_derived"), defs=["-DSXB=5", "-DSXP=4", "-DSXK=1", "-DSXSTART=2", "-DSXHOW=2", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXSTART=3"], weight=2),
              J("b2low", "c15_hfaults.cpp", E3("_lvalue", "_mutating"), defs=["-DSXB=2", "-DSXP=2", "-DSXK=1", "-DSXSTART=1", "-DSXHOW=1", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXSTART=2"], weight=3),
              J("wide5", "c15_hfaults.cpp", defs=["-DSXB=5", "-DSXK=1", "-DSXROT=2"] + WIDE, tdefs=["-DSXROT=13"], weight=2),
              J("wide2", "c15_hfaults.cpp", E3("_lvalue", "_mutating"), defs=["-DSXB=2", "-DSXK=1", "-DSXROT=1", "-DSXMEM=sx_memory_u"] + WIDE, tdefs=["-DSXROT=13"], weight=2)],
        bounds="one operation in every way on every container of up to 3 of 4 keys (two hash classes), 2 of 3 (branching 4), 1 of 2 (arbitrary low digits); the index of the allocation, copy, hash, comparison or callback that throws is symbolic, over all of them; and, of containers of up to 12 keys in a fixed wide tree (nodes of several values and children, three equal hashes, hashes that part at the last digit) built in several rotations of one order, one operation with every failure"),
    "C08": dict(
        jobs=[J("b2l1", "c08_equal.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXA=7", "-DSXCUT=20"], tdefs=["-DSXA=10", "-DSXCUT=28", "-DSXSH=24"], weight=3),
              J("b2l2", "c08_equal.cpp", ["h_flex_cuts", "h_flex_shared"], defs=["-DSXB=2", "-DSXBL=2", "-DSXCUT=18", "-DSXSH=16"], tdefs=["-DSXCUT=40", "-DSXSH=36"], weight=2),
              J("b3l2", "c08_equal.cpp", defs=["-DSXB=3", "-DSXBL=2", "-DSXA=9", "-DSXT=elem", "-DSXARRAY", "-DSXCUT=10", "-DSXSH=9"], tdefs=["-DSXA=14", "-DSXCUT=26", "-DSXSH=20"], weight=2),
              J("hb5two", "c08_equal.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=4", "-DSXSTART=3", "-DSXHOW=2"], tdefs=["-DSXP=5"], weight=2),
              J("hb2low", "c08_equal.cpp", defs=["-DSXHASHONLY", "-DSXB=2", "-DSXP=2", "-DSXSTART=2", "-DSXHOW=1", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXP=3"], weight=2),
              J("wide5", "c08_equal.cpp", E3("_rebuilt", "_derived"), defs=["-DSXHASHONLY", "-DSXB=5", "-DSXROT=1"] + WIDE, tdefs=["-DSXROT=13"], weight=2),
              J("ident", "c08_identity.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXA=3"], tdefs=["-DSXA=5"], weight=2),
              J("identarr", "c08_identity.cpp", defs=["-DSXARRAY", "-DSXA=3"], tdefs=["-DSXA=5"], weight=1),
              J("identh", "c08_identity.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=3", "-DSXSTART=1", "-DSXHOW=2"], tdefs=["-DSXSTART=2"], weight=1),
              J("identhgc", "c08_identity.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=2", "-DSXSTART=1", "-DSXHOW=2"] + GC, tdefs=["-DSXP=3", "-DSXSTART=2"], weight=1),
              J("deep", "c09_deep.cpp", ["h_equal"], defs=["-DSXB=2", "-DSXBL=1"], tdefs=["-DSXDN={11,13,21,35,37}"], weight=1),
              J("deep3", "c09_deep.cpp", ["h_equal"], defs=["-DSXB=3", "-DSXBL=2", "-DSXT=elem", "-DSXDN={21,37}"], tdefs=["-DSXDN={9,21,37,75}"], weight=1),
              J("b1l1", "c08_equal.cpp", ["h_vector_lengths", "h_vector_rebuilt", "h_vector_derived"], defs=["-DSXB=1", "-DSXBL=1", "-DSXT=elem", "-DSXA=30", "-DSXN=36"], weight=1)],
        bounds="vectors of up to 20..40 elements with two children per node (up to six levels); equality with every recut or one-element-changed value of flex_vectors that are relaxed trees of two to four levels (up to 60..100 elements) with underfull nodes inside; identity() of the values of every history of 2 derivations (as C03, C06); every pair of equal and of one-element-different vectors and flex_vectors up to 7..9 elements in regular, taken, dropped, concatenated shapes, joined from two parts cut at every point of up to 20 elements (40 thorough), separate or shared with one another (up to 16, thorough 36), lengths 0..24, arrays up to 7; hash containers of 2..4 keys (arbitrary low digits, collisions) built in every order or derived from one another; arbitrary element values; and, of containers of up to 12 keys in a fixed wide tree (nodes of several values and children, three equal hashes, hashes that part at the last digit) built in several rotations of one order, every pair one or two operations apart or built in different orders"),
    "C11": dict(
        jobs=[J("b5two", "c11_diff.cpp", defs=["-DSXB=5", "-DSXP=4", "-DSXSTART=3", "-DSXK=2", "-DSXHOW=2"], tdefs=["-DSXP=5"], weight=3),
              J("b2low", "c11_diff.cpp", defs=["-DSXB=2", "-DSXP=3", "-DSXSTART=2", "-DSXK=1", "-DSXHOW=1", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXP=4"], weight=3),
              J("b6two", "c11_diff.cpp", defs=["-DSXB=6", "-DSXP=3", "-DSXSTART=2", "-DSXK=1", "-DSXHOW=2"], tdefs=["-DSXP=4"], weight=2),
              J("b6low", "c11_diff.cpp", defs=["-DSXB=6", "-DSXP=2", "-DSXSTART=2", "-DSXK=1", "-DSXHOW=1"], thorough_only=True, weight=2),
              J("wide5", "c11_diff.cpp", E3("_derived", "_ranges"), defs=["-DSXB=5", "-DSXK=1"] + WIDE, tdefs=["-DSXK=2"], weight=1),
              J("wide2", "c11_diff.cpp", E3("_derived", "_ranges"), defs=["-DSXB=2", "-DSXK=1", "-DSXROT=1"] + WIDE, tdefs=["-DSXK=2", "-DSXROT=3"], weight=1)],
        bounds="every two containers of up to 3 of 4 keys (two hash classes), 2 of 3 keys (arbitrary low digits, branching 4), 2 of 3 (branching 64), built separately or derived by 1..2 operations; arbitrary mapped values that may be equal; and, of containers of up to 12 keys in a fixed wide tree (nodes of several values and children, three equal hashes, hashes that part at the last digit) built in several rotations of one order, every pair of ranges of the keys and every pair one operation apart"),
    "C09": dict(
        jobs=[J("b2l1", "c09_iter.cpp", defs=["-DSXB=2", "-DSXBL=1"], tdefs=["-DSXN=30", "-DSXA=14"], weight=3),
              J("b3l2", "c09_iter.cpp", defs=["-DSXB=3", "-DSXBL=2", "-DSXT=elem"], tdefs=["-DSXN=44", "-DSXA=16"], weight=3),
              J("hb5full", "c09_iter.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=3", "-DSXSTART=0", "-DSXHOW=0"], tdefs=["-DSXSTART=1"], weight=3),
              J("hb5two", "c09_iter.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=4", "-DSXSTART=3", "-DSXHOW=2"], tdefs=["-DSXP=5", "-DSXK=2"], weight=2),
              J("hb2low", "c09_iter.cpp", defs=["-DSXHASHONLY", "-DSXB=2", "-DSXP=3", "-DSXSTART=1", "-DSXHOW=1", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXP=4"], weight=2),
              J("wide5", "c09_iter.cpp", E3("_many"), defs=["-DSXHASHONLY", "-DSXB=5", "-DSXROT=13"] + WIDE, weight=1),
              J("wide2", "c09_iter.cpp", E3("_many"), defs=["-DSXHASHONLY", "-DSXB=2", "-DSXROT=3"] + WIDE, tdefs=["-DSXROT=13"], weight=1),
              J("deep", "c09_deep.cpp", ["h_walk", "h_jump"], defs=["-DSXB=2", "-DSXBL=1"], tdefs=["-DSXDN={11,13,21,35,37}"], weight=1),
              J("deep3", "c09_deep.cpp", ["h_walk", "h_jump"], defs=["-DSXB=3", "-DSXBL=2", "-DSXT=elem", "-DSXDN={37}"], tdefs=["-DSXDN={9,21,37,75}"], weight=1),
              J("b1l1", "c09_iter.cpp", ["h_vector_walks", "h_vector_jumps", "h_vector_algorithms"], defs=["-DSXB=1", "-DSXBL=1", "-DSXT=elem", "-DSXA=18"], tdefs=["-DSXN=40"], weight=1)],
        bounds="vectors of up to 20..40 elements with two children per node (up to six levels); every walk and jump of flex_vectors that are relaxed trees of two to four levels (up to 60..100 elements) with underfull nodes inside; every vector up to 40 (thorough 50) and flex_vector up to 20 elements in dropped, concatenated, prepended shapes walked both ways; every pair of positions up to 20/9 elements by every kind of jump; hash containers of 3..4 keys with arbitrary 64-bit, arbitrary low-digit and colliding hashes, and of many fixed keys over all nodes; and, of containers of up to 12 keys in a fixed wide tree (nodes of several values and children, three equal hashes, hashes that part at the last digit) built in several rotations of one order, every removal"),
    "C10": dict(
        jobs=[J("b2l1", "c10_algo.cpp", defs=["-DSXB=2", "-DSXBL=1"], tdefs=["-DSXN=30", "-DSXA=14"], weight=3),
              J("b3l2", "c10_algo.cpp", defs=["-DSXB=3", "-DSXBL=2", "-DSXT=elem", "-DSXDN={11,37}"], tdefs=["-DSXN=44", "-DSXA=16"], weight=3),
              J("hb5full", "c10_algo.cpp", ["h_map_many", "h_set_many", "h_table_many"], defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=3", "-DSXSTART=0", "-DSXHOW=0"], weight=2),
              J("hb5two", "c10_algo.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=4", "-DSXSTART=3", "-DSXHOW=2"], tdefs=["-DSXP=5", "-DSXK=2"], weight=2),
              J("hb2low", "c10_algo.cpp", defs=["-DSXHASHONLY", "-DSXB=2", "-DSXP=3", "-DSXSTART=1", "-DSXHOW=1", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXP=4"], weight=2),
              J("wide5", "c10_algo.cpp", E3("_many"), defs=["-DSXHASHONLY", "-DSXB=5", "-DSXROT=13"] + WIDE, weight=1),
              J("b1l1", "c10_algo.cpp", ["h_vector_whole", "h_vector_ranges", "h_vector_algorithms"], defs=["-DSXB=1", "-DSXBL=1"], tdefs=["-DSXN=30"], weight=1)],
        bounds="vectors of up to 20..40 elements with two children per node (up to six levels); whole vectors up to 36 and flex_vectors up to 12 elements, every sub-range of vectors up to 36 and flex_vectors up to 11 elements, every stopping point of the predicates; arrays up to 7; hash containers as C09; and, of containers of up to 12 keys in a fixed wide tree (nodes of several values and children, three equal hashes, hashes that part at the last digit) built in several rotations of one order, every removal"),
    "C16": dict(
        jobs=[J("cap", "c16_array.cpp", defs=["-DSXT=elem", "-DSXN=26"], tdefs=["-DSXN=40", "-DSXK=5", "-DSXA=6"], weight=2),
              J("nocap", "c16_array.cpp", defs=["-DSXT=elem", "-DSXNOCAP", "-DSXN=24"], tdefs=["-DSXK=5", "-DSXA=6"], weight=2),
              J("bytes", "c16_array.cpp", ["h_chain", "h_transient", "h_ctor"], defs=["-DSXT=uint32_t", "-DSXMEM=sx_memory_u", "-DSXK=3"], tdefs=["-DSXK=5"], weight=1)],
        bounds="every length 0..26 with and without spare capacity; chains of 4 operations from arrays up to 4; r-values with one other holder; transients with writes through data_mut and persistent() in between; every constructor; arbitrary values"),
    "C17": dict(
        jobs=[J("rc", "c17_box.cpp", tdefs=["-DSXK=4", "-DSXFAULTK=3"], weight=2),
              J("unsafe", "c17_box.cpp", defs=["-DSXMEM=sx_memory_u", "-DSXK=2"], tdefs=["-DSXFAULTK=3"], weight=1),
              J("nested", "c25_nested.cpp", ["h_box", "h_atom"], defs=["-DSXK=4"], tdefs=["-DSXK=6"], weight=1),
              J("nestedu", "c25_nested.cpp", ["h_box"], defs=["-DSXK=4", "-DSXMEM=sx_memory_u"], tdefs=["-DSXK=6"], weight=1)],
        bounds="every history of 3 operations over 3 boxes (2 with a failing allocation or copy at a symbolic index), both reference counting policies; chains of 4 operations on boxes and atoms whose values hold boxes that become the result; arbitrary values"),
    "C24": dict(
        jobs=[J("b2l1", "c24_sharing.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXT=elem"], tdefs=["-DSXVN=40", "-DSXFN=16"], weight=3),
              J("b3l2", "c24_sharing.cpp", defs=["-DSXB=3", "-DSXBL=2", "-DSXT=elem", "-DSXMEM=sx_memory_u", "-DSXFN=14"], tdefs=["-DSXVN=48", "-DSXFN=20"], weight=3),
              J("array", "c24_sharing.cpp", defs=["-DSXARRAY", "-DSXT=elem"], weight=1),
              J("hb5two", "c24_sharing.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=4", "-DSXHOW=2", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXP=6"], weight=2),
              J("hb2low", "c24_sharing.cpp", defs=["-DSXHASHONLY", "-DSXB=2", "-DSXP=3", "-DSXHOW=1", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXP=4"], weight=2),
              J("wide5", "c24_sharing.cpp", defs=["-DSXHASHONLY", "-DSXB=5"] + WIDE, tdefs=["-DSXROT=13"], weight=1),
              J("wide2", "c24_sharing.cpp", defs=["-DSXHASHONLY", "-DSXB=2"] + WIDE, tdefs=["-DSXROT=13"], weight=1),
              J("b1l1", "c24_sharing.cpp", ["h_vector"], defs=["-DSXB=1", "-DSXBL=1", "-DSXT=elem"], weight=1)],
        bounds="vectors of up to 20..40 elements with two children per node (up to six levels); every vector up to 24, flex_vector up to 12..14 elements in every shape, array up to 8, and hash containers of 3..4 keys: every operation with element copies, moves and allocations counted; and, of containers of up to 12 keys in a fixed wide tree (nodes of several values and children, three equal hashes, hashes that part at the last digit) built in several rotations of one order, every operation"),
    "C25": dict(
        jobs=[J("b2l1", "c25_special.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXT=elem", "-DSXK=2"], tdefs=["-DSXK=3"], weight=3),
              J("b3l2", "c25_special.cpp", defs=["-DSXB=3", "-DSXBL=2", "-DSXT=elem", "-DSXMEM=sx_memory_u", "-DSXK=2"], tdefs=["-DSXK=3"], weight=2),
              J("hb5", "c25_special.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=4", "-DSXK=2", "-DSXHOW=3", "-DSXTRACK", "-DSXT=elem"], tdefs=["-DSXK=3"], weight=3),
              J("nested", "c25_nested.cpp", ["h_vector", "h_flex", "h_array"], defs=["-DSXB=2", "-DSXBL=1", "-DSXK=2"], tdefs=["-DSXK=3"], weight=1),
              J("nestedu", "c25_nested.cpp", ["h_vector", "h_flex", "h_array"], defs=["-DSXB=3", "-DSXBL=2", "-DSXK=2", "-DSXW=5", "-DSXMEM=sx_memory_u"], tdefs=["-DSXK=3"], weight=1),
              J("nestedh", "c25_nested.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXK=2"], tdefs=["-DSXK=3"], weight=1),
              J("nestedhu", "c25_nested.cpp", defs=["-DSXHASHONLY", "-DSXB=3", "-DSXK=2", "-DSXW=4", "-DSXMEM=sx_memory_u"], tdefs=["-DSXK=3"], weight=1),
              J("wide5", "c25_special.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXK=1"] + WIDE, tdefs=["-DSXROT=13"], weight=1)],
        bounds="every pair of special operations (thorough: 3) over three objects of each type and its transient, including self-assignment and self-move, and round trips through transients; boxes; pairs (thorough: triples) of operations on containers nested in themselves, whose argument lives inside the value that is released; and, of containers of up to 12 keys in a fixed wide tree (nodes of several values and children, three equal hashes, hashes that part at the last digit) built in several rotations of one order, every special operation"),
    "C23": dict(
        jobs=[J("inter", "c23_interleave.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXA=5", "-DSXK=2"] + GC, tdefs=["-DSXK=3", "-DSXA=3"], weight=3),
              J("intere", "c23_interleave.cpp", ["h_flex"], defs=["-DSXB=2", "-DSXBL=1", "-DSXT=elem", "-DSXA=3", "-DSXK=2"] + GCE, tdefs=["-DSXA=6"], weight=2),
              J("arrinter", "c23_interleave.cpp", defs=["-DSXARRAY", "-DSXA=3", "-DSXK=2"] + GC, tdefs=["-DSXK=3"], weight=1),
              J("hinter", "c23_interleave.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=2", "-DSXHOW=2", "-DSXK=2"] + GC, tdefs=["-DSXP=3"], weight=2),
              J("trans", "c04_transient.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXVN=20"] + GC, weight=3),
              J("transe", "c04_transient.cpp", ["h_flex_tr", "h_flex_one", "h_flex_chain"], defs=["-DSXB=3", "-DSXBL=2", "-DSXVN=20"] + GCE, weight=2),
              J("htrans", "c07_htransient.cpp", defs=["-DSXB=5", "-DSXP=3", "-DSXK=1", "-DSXSTART=2", "-DSXHOW=2"] + GC, tdefs=["-DSXK=2"], weight=2),
              J("persist", "c03_persist.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXA=3"] + GC, tdefs=["-DSXA=5"], weight=2),
              J("flexe", "c02_flex.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXPARTS=3", "-DSXSLICE=14", "-DSXPAIR=20", "-DSXA2=5", "-DSXK=2"] + GCE, tdefs=["-DSXK=3"], weight=2),
              J("deep", "c04_deep.cpp", defs=["-DIMMER_DEBUG_DEEP_CHECK=1", "-DSXB=2", "-DSXBL=1"] + GC, tdefs=DEEPT, weight=2),
              J("deep3", "c04_deep.cpp", defs=DEEP3 + GC, weight=2),
              J("deepe", "c04_deep.cpp", ["h_join"], defs=["-DSXB=2", "-DSXBL=1"] + GCE, weight=1),
              J("wide5", "c23_interleave.cpp", E3(""), defs=["-DSXHASHONLY", "-DSXB=5", "-DSXK=1", "-DSXROT=2"] + WIDE + GC, tdefs=["-DSXROT=13"], weight=1),
              J("wideone", "c07_htransient.cpp", E3("_one", "_chain", "_own"), defs=["-DSXB=5", "-DSXK=1"] + WIDE + GC, tdefs=["-DSXROT=13"], weight=1),
              J("deepop", "c02_deep.cpp", ["h_op"], defs=["-DSXB=2", "-DSXBL=1", "-DSXDN={11,37}", "-DSXMODES={1,2,3}"] + GC, tdefs=["-DSXDN={11,13,21,37}"], weight=1),
              J("big", "c02_deep.cpp", ["h_big"], defs=["-DSXB=5", "-DSXBL=1", "-DSXBIGN={70,137,2100}"] + GC, weight=1),
              J("b1l1", "c04_transient.cpp", ["h_vector_one", "h_vector_chain"], defs=["-DSXB=1", "-DSXBL=1", "-DSXT=elem", "-DSXVN=34", "-DSXA=5"] + GC, weight=1)],
        bounds="in the wide tree, two operations on what holds its own path to one key and shares the rest with another value; vectors of up to 20..40 elements with two children per node (up to six levels); one operation at every position of flex_vectors that are relaxed trees of two to four levels (up to 60..100 elements) with underfull nodes inside; with the owner-token policy and a heap that never reuses: histories of 2 steps (thorough 3) over several transients, copies and values derived from one another; every transient operation and chain of C04/C07 and every derivation of C03 up to 3..5 elements; C02 with embedded size tables; and, of containers of up to 12 keys in a fixed wide tree (nodes of several values and children, three equal hashes, hashes that part at the last digit) built in several rotations of one order, every step"),
    "C18": dict(
        jobs=[J("two", "c18_atom.cpp", ["h_alone", "h_update"], defs=["-DSXTN=2", "-DSXK=2"], tdefs=["-DSXS=4"], threads=True, weight=3),
              J("twoany", "c18_atom.cpp", ["h_any"], defs=["-DSXTN=2", "-DSXK=2"], threads=True, weight=3),
              J("one", "c18_atom.cpp", ["h_any"], defs=["-DSXTN=2", "-DSXK=1"], threads=True, preempt=3, tpreempt=2, weight=3),
              J("three", "c18_atom.cpp", ["h_any", "h_update"], defs=["-DSXTN=3", "-DSXK=1"], threads=True, weight=3),
              J("gc", "c18_atom.cpp", defs=["-DSXTN=2", "-DSXK=2"] + GC, threads=True, preempt=3, weight=2),
              J("gc3", "c18_atom.cpp", ["h_any", "h_update"], defs=["-DSXTN=3", "-DSXK=1"] + GC, threads=True, preempt=3, weight=2)],
        bounds="2 threads of 2 operations and 3 threads of 1 out of load, store, exchange, update, with reference counting (boxes guarded by a spinlock) and with garbage collection (lock-free): every interleaving of atomic operations with up to 2 (3) preemptions; data races by happens-before from the memory orders used; arbitrary values"),
    "C19": dict(
        jobs=[J("vector", "c19_shared.cpp", ["h_vector"], defs=["-DSXB=2", "-DSXBL=1", "-DSXSIZES={7}", "-DSXT=elem"], tdefs=["-DSXSIZES={3,7,11,35}"], threads=True, por=True, weight=3),
              J("flex", "c19_shared.cpp", ["h_flex"], defs=["-DSXB=2", "-DSXBL=1", "-DSXT=elem", "-DSXSIZES={6}", "-DSXACTS=21"],
                tdefs=["-DSXACTS=63", "-DSXSIZES={3,6,11}"], threads=True, por=True, weight=5),
              J("flexe", "c19_shared.cpp", ["h_flex"], defs=["-DSXB=2", "-DSXBL=1", "-DSXMEM=sx_memory_e", "-DSXSIZES={3}", "-DSXACTS=18"],
                tdefs=["-DSXACTS=63", "-DSXSIZES={3,6}"], threads=True, por=True, weight=5),
              J("array", "c19_shared.cpp", ["h_array", "h_box"], defs=["-DSXARRAY", "-DSXT=elem"], threads=True, por=True, weight=1),
              J("box3", "c19_shared.cpp", ["h_box"], defs=["-DSXARRAY", "-DSXTN=3"], tdefs=["-DSXTN=4"], threads=True, por=True, weight=1),
              J("hash", "c19_shared.cpp", ["h_map", "h_table"], defs=["-DSXHASHONLY", "-DSXP=3", "-DSXHOW=3", "-DSXTRACK", "-DSXACTS=5"],
                tdefs=["-DSXACTS=21"], threads=True, por=True, weight=3),
              J("hash2", "c19_shared.cpp", ["h_map"], defs=["-DSXHASHONLY", "-DSXP=2", "-DSXHOW=3", "-DSXTRACK"], tdefs=["-DSXP=3"], threads=True, por=True, weight=3),
              J("set", "c19_shared.cpp", ["h_set"], defs=["-DSXHASHONLY", "-DSXP=3", "-DSXHOW=3", "-DSXACTS=20"], tdefs=["-DSXACTS=63"], threads=True, por=True, weight=2)],
        bounds="2 threads, each with one operation (read; derive; r-value; transient; moved transient; copy of a shared value while the first owner still reads it) on values that are copies of, or derived from, one another, in every interleaving of their atomic operations (partial-order reduced, no preemption bound): vectors of 7, flex_vectors of 6 and 3 (regular and dropped concatenations; embedded size tables), arrays up to 3, boxes (also 3 threads), maps, tables and sets of 2..3 keys with collisions and shared prefixes; arbitrary values; data races by happens-before from the memory orders used"),
    "C20": dict(
        jobs=[J("heaps", "c20_heaps.cpp", tdefs=["-DSXK=10"], weight=2),
              J("local", "c21_free_list.cpp", ["h_thread_local"], defs=["-DSXK=4"], threads=True, por=True, weight=1)],
        bounds="every sequence of 8 (thorough 10) allocations, failing allocations and deallocations of arbitrary permitted sizes, in every order, for each adaptor, for the heaps the policies make, threads that end with blocks in their list, objects that allocate themselves through a policy, and vectors of 16-byte aligned elements"),
    "C21": dict(
        jobs=[J("two", "c21_free_list.cpp", ["h_shared", "h_layered"], tdefs=["-DSXK=4"], threads=True, por=True, weight=4),
              J("limit1", "c21_free_list.cpp", ["h_shared"], defs=["-DSXL=1"], tdefs=["-DSXK=4", "-DSXPRE=2"], threads=True, por=True, weight=3),
              J("limit0", "c21_free_list.cpp", ["h_shared"], defs=["-DSXL=0"], tdefs=["-DSXK=4", "-DSXPRE=0"], threads=True, por=True, weight=1),
              J("three", "c21_free_list.cpp", ["h_shared", "h_layered"], defs=["-DSXTN=3", "-DSXK=1", "-DSXPRE=2"], tdefs=["-DSXK=2", "-DSXPRE=1"], threads=True, por=True, weight=3),
              J("local", "c21_free_list.cpp", ["h_thread_local"], defs=["-DSXK=4"], tdefs=["-DSXTN=3"], threads=True, por=True, weight=1),
              J("vectors", "c21_free_list.cpp", ["h_vectors"], defs=["-DSXVN=4"], tdefs=["-DSXVM=2"], threads=True, por=True, weight=2)],
        bounds="2 threads of 3 operations (thorough: 4) and 3 threads of 1 (2), with up to 3 blocks in the list beforehand and blocks handed over between threads, limits 0, 1, 2; the shared list, thread-local lists in front of it, thread-local lists alone; two threads with vectors up to 4 elements over free_list_heap_policy; every interleaving of the atomic operations"),
    "C22": dict(
        jobs=[J("b2l1", "c22_checked.cpp", defs=["-DSXB=2", "-DSXBL=1", "-DSXN=40"], tdefs=["-DSXA=18"], weight=2),
              J("b3l2", "c22_checked.cpp", defs=["-DSXB=3", "-DSXBL=2", "-DSXN=40", "-DSXT=elem"], tdefs=["-DSXA=18"], weight=2),
              J("hb5two", "c22_checked.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=4", "-DSXHOW=2"], tdefs=["-DSXP=5"], weight=2),
              J("hb2low", "c22_checked.cpp", defs=["-DSXHASHONLY", "-DSXB=2", "-DSXP=3", "-DSXHOW=1"], tdefs=["-DSXP=4"], weight=2),
              J("hb5full", "c22_checked.cpp", defs=["-DSXHASHONLY", "-DSXB=5", "-DSXP=2", "-DSXHOW=0"], tdefs=["-DSXP=3"], weight=2),
              J("wide5", "c22_checked.cpp", ["h_map", "h_table"], defs=["-DSXHASHONLY", "-DSXB=5"] + WIDE, tdefs=["-DSXROT=13"], weight=1),
              J("deep", "c09_deep.cpp", ["h_at"], defs=["-DSXB=2", "-DSXBL=1"], tdefs=["-DSXDN={11,13,21,35,37}"], weight=1),
              J("deep3", "c09_deep.cpp", ["h_at"], defs=["-DSXB=3", "-DSXBL=2", "-DSXT=elem", "-DSXDN={21,75}"], weight=1),
              J("b1l1", "c22_checked.cpp", ["h_vector"], defs=["-DSXB=1", "-DSXBL=1", "-DSXT=elem", "-DSXN=40"], weight=1)],
        bounds="vectors of up to 20..40 elements with two children per node (up to six levels); arbitrary index of flex_vectors that are relaxed trees of two to four levels (up to 60..100 elements) with underfull nodes inside; arbitrary 64-bit index on every vector up to 40, flex_vector up to 13 elements, array up to 6 and their transients; arbitrary present or absent key in containers of 2..4 keys; and, of containers of up to 12 keys in a fixed wide tree (nodes of several values and children, three equal hashes, hashes that part at the last digit) built in several rotations of one order, every lookup"),
    "C26": dict(
        jobs=[J("b2", "c26_dvektor.cpp", defs=["-DSXB=2", "-DSXN=20", "-DSXNK=20", "-DSXK=2"], tdefs=["-DSXK=3", "-DSXNK=18", "-DSXN=36"], weight=3),
              J("b2deep", "c26_dvektor.cpp", ["h_build"], defs=["-DSXB=2", "-DSXN=200"], tdefs=["-DSXN=400"], weight=1),
              J("b1", "c26_dvektor.cpp", ["h_build", "h_chain", "h_empty"], defs=["-DSXB=1", "-DSXN=40", "-DSXNK=34", "-DSXK=2"], tdefs=["-DSXK=3", "-DSXNK=12"], weight=3),
              J("b1e", "c26_dvektor.cpp", ["h_iterate", "h_chain"], defs=["-DSXB=1", "-DSXN=17", "-DSXNK=17", "-DSXK=2", "-DSXT=elem"], tdefs=["-DSXN=34", "-DSXNK=34"], weight=2)],
        bounds="branching 4: every length 0..20 (and 200 by push_back alone), every chain of 2 operations at every index from every length up to 20, earlier values compared; every walk and jump up to 20; branching 2: lengths 0..40, chains from every length up to 34 (six levels), walks up to 17; arbitrary element values"),
}

NOT_APPLICABLE = {
    "N01": "libgc is there as a binary (immer's own tests link it), but whether it collects depends on its conservative scanning of stacks, registers and heap, "
           "which is external binary code that cannot be encoded; the code of immer that runs on top of it is decided with a heap that never releases in C23",
    "N02": "the raw Python module doesn't compile against the Python 3 that is here, the development files of Guile and Emscripten are absent, and the interpreters themselves are far "
           "outside what can be encoded; the bindings are thin wrappers over containers decided here",
    "N03": "an asymptotic statement over unboundedly large containers has no bounded instance; the bounded form (elements copied and nodes allocated per "
           "operation) is decided in C24",
}

# What a release build compiles: no assertions, no tags in the nodes, other
# heap policies; some of it without exceptions as well.
def release(check, of, name="rel", extra=(), entries=None, quick=(), thorough=(), noexc=False):
    job = next(j for j in CHECKS[check]["jobs"] if j["name"] == of)
    new = dict(job, name=name, defs=list(job.get("defs", ())) + list(quick) + ["-DNDEBUG"] + (["-DIMMER_NO_EXCEPTIONS"] if noexc else []) + list(extra),
               tdefs=list(thorough), validate=0)
    if entries:
        new["entries"] = entries
    CHECKS[check]["jobs"].append(new)

release("C01", "b2l1", quick=["-DSXN=30"], noexc=True)
release("C02", "b2l1", quick=["-DSXPAIR=18", "-DSXSLICE=10", "-DSXA2=4"])
release("C02", "deep", "reldeep", noexc=True)
release("C03", "b2l1", quick=["-DSXA=3"])
release("C04", "b3l2e", quick=["-DSXVN=20"])
release("C04", "deep", "reldeep")
release("C05", "b5two", noexc=True)
release("C06", "b5two")
release("C07", "b5two")
release("C08", "b2l1", quick=["-DSXA=5", "-DSXCUT=12", "-DSXSH=10"])
release("C08", "hb5two", "relh")
release("C09", "b2l1", quick=["-DSXN=14", "-DSXA=7"])
release("C09", "hb5two", "relh")
release("C10", "b2l1", quick=["-DSXN=14", "-DSXA=7", "-DSXDN={11}"])
release("C10", "hb5two", "relh")
release("C11", "b5two")
release("C12", "b2l1", quick=["-DSXVN=14"])
release("C12", "array", "relarr")
release("C13", "b5two")
release("C14", "b2l1", quick=["-DSXVN=8"])
release("C15", "b5two", quick=["-DSXSTART=2"])
release("C16", "cap", quick=["-DSXN=14"])
release("C16", "nocap", "relnocap", quick=["-DSXN=14"])
release("C17", "rc", quick=["-DSXK=2"])
release("C20", "heaps", quick=["-DSXK=6"])
release("C21", "two", quick=["-DSXK=2"])
release("C22", "b2l1", quick=["-DSXN=20"])
release("C22", "hb5two", "relh")
release("C23", "trans", quick=["-DSXVN=10"])
release("C23", "htrans", "relh")
release("C24", "b2l1")
release("C24", "hb5two", "relh")
release("C25", "b2l1")
release("C25", "hb5", "relh")
release("C26", "b2", quick=["-DSXN=12", "-DSXNK=10"])
for c in CHECKS.values():
    if any(j["name"].startswith("rel") for j in c["jobs"]):
        c["bounds"] += "; the first of these again, smaller, as compiled in a release build (NDEBUG)"
