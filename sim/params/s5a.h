/* scaled down instance of category 5, for simulation builds */
#define SEED_LENGTH_BYTES (32)
#define N (516)
#define K (258)
#define Q (127)
#define N_pad (544)
#define K_pad (288)
#define N_K_pad (288)
#define NUM_KEYPAIRS (2)
#define T (19)
#define W (4)
#define SEED_TREE_MAX_PUBLISHED_BYTES (416)
#define FQ_ELEM uint8_t
#define FQ_DOUBLEPREC uint16_t
#define FQ_TRIPLEPREC uint32_t
#define POSITION_T uint16_t
#define SEED_TREE_LABEL_T uint8_t
