// C01: vector is a sequence.  Model: std::vector, over histories on a pool of three vectors.
#define PBT_MAIN
#include "nano_pre.h"
#include "seqmodel.h"
#include "nanovector.h"

PROPERTY(vector_of_int, 60000, 1500000, "vector<int> agrees with the reference sequence after every operation") {
  seq_history<nanostl::vector<int>, int, true>(s, 40);
}
PROPERTY(vector_of_double, 20000, 500000, "vector<double> agrees with the reference sequence") {
  seq_history<nanostl::vector<double>, double, true>(s, 30);
}
PROPERTY(vector_of_bytes, 20000, 500000, "vector<unsigned char> agrees with the reference sequence") {
  seq_history<nanostl::vector<unsigned char>, unsigned char, true>(s, 30);
}
PROPERTY(large, 400, 12000, "large vectors (up to a million elements) agree with the reference sequence") {
  switch (s.below(3)) {
    case 0: seq_large<nanostl::vector<int>, int, true>(s, 8, 20); break;
    case 1: seq_large<nanostl::vector<unsigned char>, unsigned char, true>(s, 8, 20); break;
    default: seq_large<nanostl::vector<double>, double, true>(s, 8, 18);
  }
}
