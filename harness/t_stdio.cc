// ostrbuf-stdio.hpp and ostrbuf-fd.hpp cannot be included together
#include <hogl/detail/ostrbuf-stdio.hpp>
hogl::ostrbuf *new_ostrbuf_stdio(FILE *f, unsigned cap) { return new hogl::ostrbuf_stdio(f, hogl::ostrbuf_stdio::CLOSE_ON_DELETE, cap); }
