#!/bin/bash
. /opt/vp/lib/env.sh
jy "$@"
