// std::list's two out-of-line functions (libstdc++ list.cc), for the proof only: link / unlink one node.
#ifndef SST_VERIF_LIST_H
#define SST_VERIF_LIST_H
#include <list>
#ifndef VF_NATIVE
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{ _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept
{ _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
} }
#endif
#endif
