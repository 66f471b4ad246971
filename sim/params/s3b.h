/* scaled down instance of category 3, for simulation builds */
#define SEED_LENGTH_BYTES (24)
#define N (272)
#define K (136)
#define Q (127)
#define N_pad (320)
#define K_pad (160)
#define N_K_pad (160)
#define NUM_KEYPAIRS (3)
#define T (27)
#define W (5)
#define SEED_TREE_MAX_PUBLISHED_BYTES (336)
#define FQ_ELEM uint8_t
#define FQ_DOUBLEPREC uint16_t
#define FQ_TRIPLEPREC uint32_t
#define POSITION_T uint16_t
#define SEED_TREE_LABEL_T uint8_t
