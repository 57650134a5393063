/* Analysis-time replacement for libthai's <thai/thwctype.h>.
 *
 * The real header defines the th_wcis*() predicates as macros over tables that
 * live in the shared library.  Declaring them as functions keeps them visible
 * as calls in the AST; their meaning is given in an/thai.py. */
#ifndef THAI_THWCTYPE_H
#define THAI_THWCTYPE_H
#include <thai/thwchar.h>
#ifdef __cplusplus
extern "C" {
#endif
#define VP_DECL(n) int th_wc##n (thwchar_t wc)
VP_DECL (istis); VP_DECL (isthai); VP_DECL (iseng);
VP_DECL (isthcons); VP_DECL (isthvowel); VP_DECL (isthtone);
VP_DECL (isthdiac); VP_DECL (isthdigit); VP_DECL (isthpunct);
VP_DECL (istaillesscons); VP_DECL (isovershootcons);
VP_DECL (isundershootcons); VP_DECL (isundersplitcons);
VP_DECL (isldvowel); VP_DECL (isflvowel); VP_DECL (isupvowel);
VP_DECL (isblvowel); VP_DECL (chlevel); VP_DECL (iscombchar);
#undef VP_DECL
#ifdef __cplusplus
}
#endif
#endif
