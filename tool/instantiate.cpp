// Instantiates members of class templates that the library itself does not use, so that they are analysed as well.
#include "Atlas.h"
#include "sl_list.h"
#include "hashtable.h"
#include "bitvector.h"
#include "polynomials.h"
#include "free_abelian.h"
#include "weyl.h"
#include "blocks.h"
#include "kgb.h"
#include "repr.h"
namespace atlas {
template class hashtable::HashTable<weyl::TI_Entry,unsigned int>;
template class bitvector::BitVector<64>;
template class bitset::BitSet<40>;
template class bitset::BitSet<20>;
template class polynomials::Polynomial<int>;
template class polynomials::Safe_Poly<unsigned int>;
void instantiate(containers::simple_list<int>& a,containers::simple_list<int>& b)
{ a.swap(b); a=b; a=std::move(b); a.reverse(); a.unique(); a.clear(); a.assign(3u,5); a.remove(3);
  a.sort(); a.merge(std::move(b)); a.splice(a.begin(),b); a.insert(a.begin(),2u,7);
}
void instantiate(containers::sl_list<int>& a,containers::sl_list<int>& b)
{ a.swap(b); a=b; a=std::move(b); a.reverse(); a.unique(); a.clear(); a.assign(3u,5); a.remove(3);
  a.sort(); a.merge(std::move(b)); a.splice(a.begin(),std::move(b)); a.insert(a.begin(),2u,7); a.append(std::move(b));
  a.prepend(std::move(b)); a.move_assign(b.begin(),b.end()); a.resize(3); a.erase(a.begin(),a.end());
  containers::sl_list<int> c(std::move(a)), d(b), e(a.undress()); auto v=c.to_vector(); auto w=d.undress();
}
}
