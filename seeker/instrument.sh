#!/bin/sh
# rustc wrapper: branch counters in the library under test, and only there
for a in "$@"; do
  if [ "$a" = wavefront_obj ]; then
    exec "$@" -C instrument-coverage
  fi
done
exec "$@"
