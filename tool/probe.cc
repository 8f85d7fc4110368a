// Bodies of implicit constructors, which standard containers would invoke.
#include <new>
#include <vector>
#include <brunsli/jpeg_data.h>
#include "c/dec/output_chunk.h"
#include "c/enc/jpeg_huffman_decode.h"
#include "c/enc/state.h"
#include "c/common/context.h"
#include "c/common/distributions.h"
#include "c/dec/serialization_state.h"
#include "c/dec/state.h"
#include "c/dec/state_internal.h"
using namespace brunsli;
using namespace brunsli::internal::dec;
extern "C" {
void bsa_init_JPEGData(JPEGData* p) { new (p) JPEGData(); }
void bsa_init_JPEGComponent(JPEGComponent* p) { new (p) JPEGComponent(); }
void bsa_init_JPEGQuantTable(JPEGQuantTable* p) { new (p) JPEGQuantTable(); }
void bsa_init_JPEGHuffmanCode(JPEGHuffmanCode* p) { new (p) JPEGHuffmanCode(); }
void bsa_init_JPEGScanInfo(JPEGScanInfo* p) { new (p) JPEGScanInfo(); }
void bsa_init_HuffmanCodeTable(HuffmanCodeTable* p) { new (p) HuffmanCodeTable(); }
void bsa_init_SerializationState(SerializationState* p) { new (p) SerializationState(); }
void bsa_init_State(State* p) { new (p) State(); }
void bsa_init_ComponentMeta(ComponentMeta* p) { new (p) ComponentMeta(); }
void bsa_init_InternalState(InternalState* p) { new (p) InternalState(); }
void bsa_init_EncState(brunsli::internal::enc::State* p) { new (p) brunsli::internal::enc::State(); }
void bsa_init_EncComponentMeta(brunsli::internal::enc::ComponentMeta* p) { new (p) brunsli::internal::enc::ComponentMeta(); }
void bsa_init_ComponentState(ComponentState* p) { new (p) ComponentState(); }
void bsa_init_ComponentStateDC(ComponentStateDC* p) { new (p) ComponentStateDC(); }
void bsa_init_Prob(Prob* p) { new (p) Prob(); }
void bsa_init_HuffmanTableEntry(HuffmanTableEntry* p) { new (p) HuffmanTableEntry(); }
void bsa_init_OutputChunk(OutputChunk* p) { new (p) OutputChunk(); }
void bsa_chunk_size(OutputChunk* p, size_t n) { new (p) OutputChunk(n); }
void bsa_chunk_bytes(OutputChunk* p, const std::vector<uint8_t>& b) { new (p) OutputChunk(b); }
void bsa_chunk_view(OutputChunk* p, const uint8_t* d, size_t n) { new (p) OutputChunk(d, n); }
void bsa_chunk_move(OutputChunk* p, OutputChunk* q) { new (p) OutputChunk(std::move(*q)); }
}
