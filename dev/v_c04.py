PH='src/PathHeap.cpp'; W='src/Walker.cpp'
