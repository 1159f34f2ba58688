import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed, verify, S
def sh(id, text):
    p = f"{S}/{id}/demo.sh"; open(p, "w").write("#!/bin/bash\n# exits 0 when the behaviour is right, 1 when it is not; run with cwd = repository root\nset -e\n" + 'D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap \'find "$W" -delete\' EXIT\n' + text); os.chmod(p, 0o755)
seed("prog-old-tail", "C35", "a program behind the Rust front end given an output file that exists already and is longer than the new output",
     "the end of the old contents stays behind the converted messages",
     [("../rust/lib.rs", "File::create(output)", "std::fs::OpenOptions::new().write(true).create(true).open(output)")], [], ("demo.rs", r'''
use std::io::{Read, Write};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::fs::write(&a[1], b"abc").unwrap(); std::fs::write(&a[2], vec![7u8; 5000]).unwrap();
    { let (mut r, mut w) = gnss_converters::fetch_io("demo"); let mut b = Vec::new(); r.read_to_end(&mut b).unwrap(); assert!(b == b"abc"); w.write_all(b"xyz12").unwrap(); w.flush().unwrap(); }
    let o = std::fs::read(&a[2]).unwrap();
    if o != b"xyz12" { println!("{} bytes in the output file instead of 5", o.len()); std::process::exit(1); }
}
'''))
sh("prog-old-tail", r'''cd "$W"
for m in libc if_chain lazy_static; do rustc --edition 2018 --crate-type rlib --crate-name $m "$D/shim/rust/$m.rs" 2>/dev/null; done
rustc --edition 2018 --crate-type rlib --crate-name gnss_converters -L . --extern libc=liblibc.rlib --extern if_chain=libif_chain.rlib --extern lazy_static=liblazy_static.rlib "$R/rust/lib.rs" 2>err || { cat err; exit 3; }
rustc --edition 2018 -L . --extern gnss_converters=libgnss_converters.rlib -o demo "$D/demo.rs" 2>err || { cat err; exit 3; }
./demo "$W/in" "$W/out"
''')
seed("prog-read-narrow", "C35", "ubx2sbp reading a piece of 128 bytes or more at once, as from a file",
     "the number of bytes read is taken as a failure, the program ends and loses the rest of its input",
     [("ubx2sbp/src/ubx2sbp_main.c", "return (int)read(STDIN_FILENO, buf, len);", "return (int8_t)read(STDIN_FILENO, buf, len);")], [], ("demo.c", r'''
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#define main program
#include "ubx2sbp/src/ubx2sbp_main.c"
#undef main
int ubx2sbp_main(int argc, char **argv, const char *help, readfn_ptr rd, writefn_ptr wr, void *context) {
  (void)argc; (void)argv; (void)help; (void)wr; int bad = 0;
  for (int n = 1; n <= 700; n += 99) { uint8_t b[700]; int k = rd(b, (size_t)n, context); if (k != n) { fprintf(stderr, "asked for %d bytes of a long file, got %d\n", n, k); bad = 1; } }
  return bad;
}
int main(void) { char *v[] = {"ubx2sbp", NULL}; return program(1, v); }
'''))
sh("prog-read-narrow", r'''cd "$R/c"
INC="-I$D/shim/include -I."; for d in librtcm libubx gnss_converters ubx2sbp; do INC="$INC -I$R/c/$d/include -I$R/c/$d/src"; done
clang -std=gnu11 -w $INC "$D/demo.c" -o "$W/demo"
head -c 100000 /dev/zero > "$W/in"; "$W/demo" < "$W/in"
''')
seed("prog-sender-hex", "C35", "ixcom2sbp with a sender id in hexadecimal form, as its help allows",
     "the messages are sent with sender 0 instead of the one given",
     [("ixcom2sbp/src/ixcom2sbp.c", "(u16)strtol(optarg, NULL, 0)", "(u16)strtol(optarg, NULL, 10)")], ["conv", "librtcm", "libubx", "libixcom", "ixcom2sbp"], ("demo.cc", r'''
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <getopt.h>
extern "C" {
#include <gnss-converters/ixcom_sbp.h>
int ixcom2sbp_main(int, char **, const char *, int (*)(uint8_t *, size_t, void *), int (*)(uint8_t *, uint32_t, void *), void *);
}
static int sender = -1;
extern "C" void ixcom_set_sender_id(struct ixcom_sbp_state *, u16 id) { sender = id; }
static int rd(uint8_t *, size_t, void *) { return 0; }
static int wr(uint8_t *, uint32_t n, void *) { return (int)n; }
int main() {
  struct { const char *text; int is; } t[] = {{"7", 7}, {"4711", 4711}, {"65535", 65535}, {"0x1234", 0x1234}, {"0xF080", 0xF080}}; int bad = 0;
  for (auto &x : t) { char a[] = "ixcom2sbp", b[] = "--sender_id", c[32]; strcpy(c, x.text); char *v[] = {a, b, c, nullptr}; optind = 0; sender = -1; ixcom2sbp_main(3, v, "", rd, wr, nullptr); if (sender != x.is) { printf("--sender_id %s: %d\n", x.text, sender); bad = 1; } }
  return bad;
}
'''))
sh("prog-sender-hex", r'''cd "$R/c"
INC="-I$D/shim/include -I."; for d in librtcm libubx libixcom gnss_converters ixcom2sbp; do INC="$INC -I$R/c/$d/include -I$R/c/$d/src"; done
for f in $D/shim/src/*.c ixcom2sbp/src/ixcom2sbp.c; do clang -std=gnu11 -w -c $INC $f -o "$W/$(basename $f).o"; done
clang++ -std=c++17 -w -c $INC "$D/demo.cc" -o "$W/demo.o"
cat > "$W/stub.c" <<'X'
void ixcom_sbp_init(void *s, void *c, void *x) { (void)s; (void)c; (void)x; }
int ixcom_sbp_process(void *s, void *r) { (void)s; (void)r; return 0; }
X
clang -w -c "$W/stub.c" -o "$W/stub.o"; clang++ -o "$W/demo" "$W"/*.o -lm; "$W/demo"
''')
