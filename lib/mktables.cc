#include "c/common/constants.h"
#include "c/common/context.h"
#include <cstdio>
#include "c/common/context.cc"
using namespace brunsli;
extern const uint8_t dummy;
template<class T> void P(const char* n, const T* a, int k){ printf("%s == <<", n); for(int i=0;i<k;i++) printf("%s%s%d", i?",":"", i&&i%20==0?"\n  ":"", (int)a[i]); printf(">>\n"); }
template<class T> void PP(const char* n, const T* a, int r, int k){ printf("%s == <<\n", n); for(int j=0;j<r;j++){ printf(" <<"); for(int i=0;i<k;i++) printf("%s%s%d", i?",":"", i&&i%24==0?"\n  ":"", (int)a[j*k+i]); printf(">>%s\n", j<r-1?",":""); } printf(">>\n"); }
int main(){
 printf("------------------------------- MODULE Tables -------------------------------\n(* Fixed numbers of the stream format, as they were when it was published.   *)\nEXTENDS Integers, Sequences\n");
 P("NaturalOrder", kJPEGNaturalOrder, 64);
 PP("QuantBase", &kDefaultQuantMatrix[0][0], 2, 64);
 PP("StockQuantLuma", &kStockQuantizationTables[0][0][0], 8, 64);
 PP("StockQuantChroma", &kStockQuantizationTables[1][0][0], 8, 64);
 PP("StockDcCounts", &kStockDCHuffmanCodeCounts[0][0], 2, kJpegHuffmanMaxBitLength);
 PP("StockDcValues", &kStockDCHuffmanCodeValues[0][0], 2, 13);
 PP("StockAcCounts", &kStockACHuffmanCodeCounts[0][0], 2, kJpegHuffmanMaxBitLength);
 PP("StockAcValues", &kStockACHuffmanCodeValues[0][0], 2, kStockACHuffmanCodeTotalCount);
 P("DefaultDcValues", kDefaultDCValues, 16);
 P("DefaultAcValues", kDefaultACValues, 256);
 P("NonzeroBuckets", kNonzeroBuckets, 64);
 PP("FreqContext", &kFreqContext[0][0], 7, 64);
 PP("NumNonzeroContext", &kNumNonzeroContext[0][0], 7, 64);
 P("NumNonzeroSkip", kNumNonzeroContextSkip, 7);
 PP("ContextAlgorithm", kContextAlgorithm, 2, 64);
 P("InitZero", kInitProb, 64);
 PP("InitNonzero", &kInitProbNonzero[0][0], 32, 63);
 printf("=============================================================================\n");
}
