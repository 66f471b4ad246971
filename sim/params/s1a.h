/* scaled down instance of category 1, for simulation builds */
#define SEED_LENGTH_BYTES (16)
#define N (140)
#define K (70)
#define Q (127)
#define N_pad (160)
#define K_pad (96)
#define N_K_pad (96)
#define NUM_KEYPAIRS (2)
#define T (40)
#define W (6)
#define SEED_TREE_MAX_PUBLISHED_BYTES (288)
#define FQ_ELEM uint8_t
#define FQ_DOUBLEPREC uint16_t
#define FQ_TRIPLEPREC uint32_t
#define POSITION_T uint8_t
#define SEED_TREE_LABEL_T uint8_t
