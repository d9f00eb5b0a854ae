cp "$here/prog.c" prog.c
gcc -w -o c prog.c || { echo "C program does not compile"; exit 2; }
./c > c.out; crc=$?
"$demo" < prog.c > prog.rs || { echo "not transpiled"; exit 1; }
rustc -A warnings --edition 2021 -o r prog.rs 2> rustc.err || { head -20 rustc.err; echo "output does not compile"; exit 1; }
timeout 20 ./r > r.out; rrc=$?
if ! cmp -s c.out r.out || [ $crc != $rrc ]; then
  echo "C program: status $crc"; cat c.out; echo "Rust program: status $rrc"; cat r.out; exit 1
fi
