#include <ply-runtime/Base.h>
int main(){ ply::Array<int> a; a.append(3); return a.numItems()-1; }
