#!/bin/sh
# the `quote` copy in /repo trips a future-incompatibility lint of newer compilers
exec "$@" -W pub_use_of_private_extern_crate
