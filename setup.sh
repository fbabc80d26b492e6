#!/bin/bash
# builds everything once, to see that it does; checks rebuild what they need
cd "$(dirname "$0")" && make -s -j8 all
