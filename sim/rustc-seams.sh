#!/bin/sh
# Compiles the library with a call to `mcount` at the entry of every function, which the simulator
# provides (sys.rs): each call inside the library is a point where the scheduler can switch tasks.
case " $* " in
*" --crate-name japanese_law_xml_schema "*) RUSTC_BOOTSTRAP=1 exec "$@" -Z instrument-mcount ;;
esac
exec "$@"
