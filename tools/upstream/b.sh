f=$1; n=$(basename $f .cpp)
g++ -std=c++20 -w -O0 -I/repo/src -I/repo/thirdparty -I/tmp/ut/inc -I/verif/stub -I/verif/stub/gurux -I/repo/test -c $f -o o/$n.o > o/$n.log 2>&1 || { echo FAIL $n; head -3 o/$n.log | cut -c1-200; rm -f o/$n.o; }
