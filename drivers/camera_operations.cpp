#include "verif.hpp"
#include <opencv2/core.hpp>
#include "camera_tools/src/image_operations.cpp"
using Info = sensor_msgs::CameraInfo; using M = cv::Mat; using R = cv::RotateFlags; using O = camera_tools::Flip::Option;

namespace impl {
Info rotate_info(R option, const Info& info) { return camera_tools::Rotate(option).apply(info); }
Info rotate_info_degrees(int degrees, const Info& info) { return camera_tools::Rotate(degrees).apply(info); }
M rotate_image(R option, const M& image) { return camera_tools::Rotate(option).apply(image); }
M rotate_image_degrees(int degrees, const M& image) { return camera_tools::Rotate(degrees).apply(image); }
Info flip_info(O option, const Info& info) { return camera_tools::Flip(option).apply(info); }
M flip_image(O option, const M& image) { return camera_tools::Flip(option).apply(image); }
}
namespace ref {
R turn(int degrees) {
    switch (degrees % 360) {
        case 90: return R::ROTATE_90_CLOCKWISE;
        case 180: return R::ROTATE_180;
        case 270: return R::ROTATE_90_COUNTERCLOCKWISE;
        default: throw std::runtime_error("not a quarter turn");
    }
}
}
namespace spec {
Info rotate_info(R option, const Info& info) {
    verif::assume(option == R::ROTATE_90_CLOCKWISE || option == R::ROTATE_180 || option == R::ROTATE_90_COUNTERCLOCKWISE);
    const double fx = info.K[0], fy = info.K[4], cx = info.K[2], cy = info.K[5], w = info.width, h = info.height;
    Info r = info;
    if (option != R::ROTATE_180) {
        r.width = info.height;
        r.height = info.width;
        r.K[0] = fy;
        r.K[4] = fx;
    }
    // the pixel (u, v) of the input is the pixel (h - v, u), (w - u, h - v) or (v, w - u) of the output
    r.K[2] = option == R::ROTATE_90_CLOCKWISE ? h - cy : option == R::ROTATE_180 ? w - cx : cy;
    r.K[5] = option == R::ROTATE_90_CLOCKWISE ? cx : option == R::ROTATE_180 ? h - cy : w - cx;
    return r;
}
Info rotate_info_degrees(int degrees, const Info& info) { return rotate_info(ref::turn(degrees), info); }
M rotate_image(R option, const M& image) { M out; cv::rotate(image, out, option); return out; }
M rotate_image_degrees(int degrees, const M& image) { M out; cv::rotate(image, out, ref::turn(degrees)); return out; }
Info flip_info(O option, const Info& info) {
    if (option != O::FLIP_HORIZ && option != O::FLIP_VERT && option != O::FLIP_BOTH) throw std::runtime_error("option");
    Info r = info;
    if (option != O::FLIP_VERT) r.K[2] = info.width - info.K[2];
    if (option != O::FLIP_HORIZ) r.K[5] = info.height - info.K[5];
    return r;
}
M flip_image(O option, const M& image) {
    if (option != O::FLIP_HORIZ && option != O::FLIP_VERT && option != O::FLIP_BOTH) throw std::runtime_error("option");
    M out;
    cv::flip(image, out, option == O::FLIP_HORIZ ? 1 : option == O::FLIP_VERT ? 0 : -1);
    return out;
}
}
