#!/bin/sh
# rustc wrapper: compile the crate under test, and nothing else, with its `asm` feature set.
# (Cargo's own feature also switches on dependencies' assembly, which no installed compiler builds.)
case " $* " in
*" --crate-name zkhash "*) RUSTC_BOOTSTRAP=1 exec "$@" --cfg 'feature="asm"' ;;
*) exec "$@" ;;
esac
