#!/bin/bash
# RUSTC_WRAPPER: the library and the tasks get a call at every edge between basic blocks and at every load and store
for a; do
	if [ "$last" = --crate-name ] && { [ "$a" = kiss_xml ] || [ "$a" = kxtasks ]; }; then
		exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
			-Cllvm-args=-sanitizer-coverage-prune-blocks=0 -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
	fi
	last=$a
done
exec "$@"
