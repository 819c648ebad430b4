// Batch driver: tdrv CASES.jsonl OUT.jsonl START
// Runs every case (one JSON object per line) starting at line START, appends one line per case to OUT.
#include "batch.hpp"
#include "case.hpp"

int main(int argc, char** argv) { return batch::main_loop(argc, argv, host::run_case); }
