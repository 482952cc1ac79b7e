# which harness sources decide which property
LIBS=["-lboost_thread","-lboost_chrono","-lboost_system","-lpthread","-ldl"]
ASSUME=["sequentially consistent interleavings (weak-memory effects only through the happens-before race detector)",
 "operations inside uninstrumented shared libraries (libstdc++, libboost_thread) are atomic between the pthread calls they make",
 "gcc 13 -O1 build of the headers"]
CHECKS={
 "C01":dict(src=["c01_a.cpp","c01_b.cpp"]),
 "C02":dict(src=["c02_a.cpp","c02_b.cpp","c02_c.cpp"]),
 "C03":dict(src=["c03.cpp"]),
 "C04":dict(src=["c04_seq.cpp","c04.cpp"]),
 "C05":dict(src=["c05.cpp"]),
 "C06":dict(src=["c06.cpp"]),
 "C07":dict(src=["c07.cpp"]),
 "C08":dict(src=["c08.cpp"]),
 "C09":dict(src=["c09.cpp"]),
 "C10":dict(src=["c10.cpp"]),
 "C11":dict(src=["c11.cpp"]),
 "C12":dict(src=["c12.cpp"]),
 "C13":dict(src=["c13_seq.cpp","c13.cpp"]),
 "C14":dict(src=["c14.cpp"]),
 "C15":dict(src=["c15.cpp"]),
 "C16":dict(src=["c16.cpp"]),
 "C17":dict(src=["c17.cpp"]),
 "C18":dict(src=["c18.cpp"]),
 "C19":dict(src=["c19_seq.cpp","c19.cpp"]),
 "C20":dict(src=["c20_seq.cpp","c20.cpp"]),
 "C21":dict(src=["c21_seq.cpp"]),
 "C22":dict(src=["c22_a_seq.cpp","c22_b_seq.cpp","c22_c_seq.cpp"]),
 "C23":dict(src=["c23_a_seq.cpp","c23_b_seq.cpp","c23_c_seq.cpp","c23_d_seq.cpp","c23_e_seq.cpp"]),
 "C24":dict(src=["c24_a_seq.cpp","c24_b_seq.cpp","c24_c_seq.cpp","c24_d_seq.cpp","c24_e_seq.cpp"]),
 "C25":dict(src=["c25_a_seq.cpp","c25_b_seq.cpp","c25_c_seq.cpp"]),
 "C26":dict(src=["c26_seq.cpp"]),
 "C27":dict(src=["c27_seq.cpp","c27.cpp"]),
 "C28":dict(src=["c28_%s_seq.cpp"%c for c in "abcdefgh"]),
 "C29":dict(src=["c29_seq.cpp"]),
 "C30":dict(src=["c30.cpp"]),
 "C31":dict(src=["c31.cpp"]),
 "C32":dict(src=["c32.cpp"]),
}
NOT_APPLICABLE={
 "C33":"not yet decided: the client and server executions are joined by TCP sockets, which the controlled scheduler does not model yet (see DESIGN.md section 6)",
}
