import os
HERE = os.path.dirname(os.path.abspath(__file__))
NOV = ["novparser", "shim"]
LIB = ["librtcm", "shim"]
PROGSAN = ["-fsanitize=address,bounds,integer-divide-by-zero,unreachable,return", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CHECKS = {
    "C01": dict(src="c01.cc", groups=NOV),
    "C02": dict(src="c02.cc", groups=NOV),
    "C03": dict(src="c03.cc", groups=NOV + ["nov2sbp"]),
    "C04": dict(src="c04.cc", groups=NOV + ["nov2sbp"]),
    "C09": dict(src="c09.cc", groups=LIB),
    "C10": dict(src="c10.cc", groups=LIB),
    "C05": dict(src="c05.cc", groups=LIB),
    "C06": dict(src="c06.cc", groups=LIB),
    "C07": dict(src="c07.cc", groups=LIB),
    "C08": dict(src="c08.cc", groups=LIB),
    "C11": dict(src="c11.cc", groups=LIB),
    "C12": dict(src="c12.cc", groups=["conv"] + LIB),
    "C15": dict(src="c15.cc", groups=["conv"] + LIB),
    "C16": dict(src="c16.cc", groups=["conv"] + LIB),
    "C17": dict(src="c17.cc", groups=["conv"] + LIB),
    "C18": dict(src="c18.cc", groups=["conv"] + LIB),
    "C19": dict(src="c19.cc", groups=["conv"] + LIB, file_flags={"time_truth.c": ["-fsanitize=thread"]},
                ldflags=["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock"]),
    "C20": dict(src="c20.cc", groups=["conv", "extra"] + LIB),
    "C21": dict(src="c21.cc", groups=["conv", "extra", "sbp2rtcm"] + LIB),
    "C22": dict(src="c22.cc", groups=["conv", "libubx", "ubx2sbp"] + LIB),
    "C23": dict(src="c23.cc", groups=["libubx", "shim"]),
    "C24": dict(src="c24.cc", groups=["conv", "libubx", "ubx2sbp"] + LIB),
    "C25": dict(src="c25.cc", groups=["conv", "libubx", "ubx2sbp"] + LIB),
    "C26": dict(src="c26.cc", groups=["conv", "libubx", "ubx2sbp"] + LIB),
    "C27": dict(src="c27.cc", groups=["conv", "libixcom", "ixcom2sbp"] + LIB),
    "C28": dict(src="c28.cc", groups=["libixcom"] + LIB),
    "C29": dict(src="c29.cc", groups=["conv", "libixcom"] + LIB),
    "C30": dict(src="c30.cc", groups=["conv"] + LIB),
    "C31": dict(src="c31.cc", groups=["conv"] + LIB),
    "C32": dict(src="c32.cc c32u.cc", groups=["conv", "extra", "libubx", "libixcom"] + LIB, lib_flags=["-include", HERE + "/libvars.h"]),
    "C33": dict(src="c33.cc", groups=["conv", "rtcm3tosbp"] + LIB, file_flags={"rtcm3tosbp.c": ["-ftrivial-auto-var-init=zero"]}, ldflags=["-Wl,--wrap=time,--wrap=clock_gettime,--wrap=gettimeofday"]),   # a value that was not given is then a right one
    "C34": dict(src="c34.cc", groups=["conv"] + LIB),
    "C35": dict(rust=True, src="c35.cc progs.cc", groups=["novparser", "nov2sbp", "conv", "extra", "libubx", "libixcom", "rtcm3tosbp", "sbp2rtcm", "ubx2sbp", "ixcom2sbp", "mains"] + LIB,
                file_flags={f"{p}_main.{e}": PROGSAN + [f"-Dmain=prog_{p}"] for p, e in (("rtcm3tosbp", "c"), ("ubx2sbp", "c"), ("ixcom2sbp", "c"), ("sbp2rtcm", "c"), ("nov2sbp", "cc"))},
                ldflags=["-Wl,--wrap=read,--wrap=write,--wrap=exit"]),
    "C14": dict(src="c14.cc", groups=["conv"] + LIB),
    "C13": dict(src="c13.cc", groups=["conv"] + LIB),
}
