// Contract for the size of a trace buffer created from the console (debugConsole.cc).
// VF:ASSUME std::stoi returns any int (the text conversion itself is the standard library's)
#include "sst_config.h"
#include "verif.h"
#include "verif_map.h"
#include "impl/interactive/debugConsole.cc"
using namespace SST;
using namespace SST::Core::Serialization;
using SST::IMPL::Interactive::parseTraceBuffer;
static int num[2]; static unsigned n_num;
static int stoi_stub(const std::string&, size_t*, int) { return num[n_num++ & 1]; }
#ifdef VF_NATIVE
static std::string text(int v) { return std::to_string(v); }
#else
static std::string text(int) { return "n"; }
#endif
HARNESS(buffer_parameters)
{
    vf_merge(false);
    vf_use_contract((void*)(int (*)(const std::string&, size_t*, int))&std::stoi, (void*)&stoi_stub);
    n_num = 0;
    num[0] = vf::any_in<int>("size", -3, 3); num[1] = vf::any<int>("delay");
    bool found = false;
    for (int k = -3; k <= 3 && !found; k++) if (num[0] == k) { num[0] = k; found = true; }
    vf_assume(found);
    VF_ONLY_NATIVE(num[1] = num[1] < 0 ? -num[1] : num[1];)
    vf_assume(num[1] >= 0);
    std::vector<std::string> t;
    t.push_back(":"); t.push_back(text(num[0])); t.push_back(text(num[1])); t.push_back(":");
    size_t i = 0;
    ObjTreeTraceBuffer* b = parseTraceBuffer(t, i);
    if (num[0] <= 0) { CHECK("no-buffer-without-capacity", b == nullptr); }
    else {
        CHECK("made", b != nullptr);
        CHECK("as-requested", b->bufSize_ == (size_t)num[0] && b->postDelay_ == (size_t)num[1] && i == 4);
        CHECK("storage", b->tagBuffer_.size() == b->bufSize_ && b->cycleBuffer_.size() == b->bufSize_ && b->handlerBuffer_.size() == b->bufSize_);
    }
}
