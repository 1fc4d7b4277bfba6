// zimg is not available here; registers the resize namespace with no functions, as the build in this sandbox does.
#include "VapourSynth4.h"
#include "VSConstants4.h"
void resizeInitialize(VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
    vspapi->configPlugin("com.vapoursynth.resize", "resize", "left out of this build", 1, VAPOURSYNTH_API_VERSION, 0, plugin);
}
