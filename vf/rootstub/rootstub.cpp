#include "rootstub.h"
static TRandom3 g_rnd(1); TRandom* gRandom=&g_rnd; TFile* gFile=nullptr; static TDirectory g_dir; TDirectory* gDirectory=&g_dir;
TEventList vf_evtList;
