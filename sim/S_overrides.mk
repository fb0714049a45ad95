TRICK_CFLAGS += -w -O0 -I${CURDIR}/include
TRICK_CXXFLAGS += -w -O0 -I${CURDIR}/include
TRICK_LDFLAGS += -Wl,--unresolved-symbols=ignore-all -fuse-ld=lld
