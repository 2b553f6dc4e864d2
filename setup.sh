#!/bin/bash
. /verif/env.sh
cd /verif/harness && cargo build --offline --locked
