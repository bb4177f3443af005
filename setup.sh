#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
(cd "$here/mc" && cargo build --offline) && (cd "$here/mcrt" && cargo build --offline) && (cd "$here/mcffi" && cargo build --offline)
