/* Included ahead of the code under test: its variables go to sections of their own, so that they can be put back. */
#pragma clang section bss = "libbss" data = "libdata"
