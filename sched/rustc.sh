#!/bin/bash
# The race-detection pass ignores accesses wider than 16 bytes: in the variant whose kernels use 32-byte vectors, split
# vector loads and stores into scalar ones first.
case " $* " in
  *" --crate-name sm_best "*) exec "$@" -Cno-prepopulate-passes "-Cpasses=default<O2>,function(scalarizer<load-store>),tsan-module,function(tsan)" ;;
  *) exec "$@" ;;
esac
