// C30: generated mazes and filling curves.
#include "gen.h"
#include <opencv2/opencv.hpp>
#include <cslibs_path_planning/common/Pose2d.h>
#include <cslibs_path_planning/evaluation/MapGenerators.hpp>
using namespace lib_path;
using pbt::Case;

namespace {

struct Cells {
    int size, wall, off, cols, rows;       // size of a cell with its wall, thickness of the wall, position of the free part
    Cells(int width, const cv::Mat &m, int border) : size(std::max(2, width)), wall(border), off(border / 2), cols(m.cols / size), rows(m.rows / size) {}
};

// Every cell is free, and `open` tells which neighbours are joined. Everything which is free belongs to a cell or such a passage.
struct Walls {
    std::vector<char> right, down; int joined = 0;
    Walls(const cv::Mat &m, const Cells &k, int x0, int y0, int nx, int ny) : right(nx * ny, 0), down(nx * ny, 0) {
        cv::Mat expect(m.rows, m.cols, CV_8UC1, cv::Scalar(0));
        int in = k.size - k.wall;
        auto val = [&](int px, int py) { return m.at<uint8_t>(py, px); };
        for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) {
            int px = (x0 + x) * k.size + k.off, py = (y0 + y) * k.size + k.off;
            for (int j = 0; j < in; ++j) for (int i = 0; i < in; ++i) { REQUIRE(val(px + i, py + j) == 255, "pixel " << px + i << "," << py + j << " of cell " << x0 + x << "," << y0 + y << " is not free"); expect.at<uint8_t>(py + j, px + i) = 255; }
            for (int d = 0; d < 2; ++d) {
                if (d == 0 ? x + 1 == nx : y + 1 == ny) continue;
                // the wall behind the cell, as wide as the cell: free altogether or not at all
                int free = 0;
                for (int w = 0; w < k.wall; ++w) for (int i = 0; i < in; ++i) free += val(px + (d == 0 ? in + w : i), py + (d == 0 ? i : in + w)) == 255;
                REQUIRE(free == 0 || free == k.wall * in, "the wall behind cell " << x0 + x << "," << y0 + y << " is removed in part");
                if (!free) continue;
                (d == 0 ? right : down)[y * nx + x] = 1; joined++;
                for (int w = 0; w < k.wall; ++w) for (int i = 0; i < in; ++i) expect.at<uint8_t>(py + (d == 0 ? i : in + w), px + (d == 0 ? in + w : i)) = 255;
            }
        }
        for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) REQUIRE(val(x, y) == expect.at<uint8_t>(y, x), "pixel " << x << "," << y << " has the value " << (int) val(x, y) << " but belongs to no cell and no passage");
    }
};

int reach(const Walls &w, int nx, int ny, int from, int *maxDegree = nullptr) {
    std::vector<char> seen(nx * ny, 0); std::vector<int> st{from}; seen[from] = 1; int n = 0; if (maxDegree) *maxDegree = 0;
    while (!st.empty()) {
        int q = st.back(), x = q % nx, y = q / nx, deg = 0; st.pop_back(); n++;
        auto go = [&](bool open, int t) { if (!open) return; deg++; if (!seen[t]) { seen[t] = 1; st.push_back(t); } };
        go(x + 1 < nx && w.right[q], q + 1); go(x > 0 && w.right[q - 1], q - 1); go(y + 1 < ny && w.down[q], q + nx); go(y > 0 && w.down[q - nx], q - nx);
        if (maxDegree) *maxDegree = std::max(*maxDegree, deg);
    }
    return n;
}

} // namespace

static void mazes(Case &c, bool big) {
    int width = c.pick(5) == 4 ? (int) c.integer(1, 40) : (int) c.integer(2, 9);
    int s = std::max(2, width);
    int w = c.pick(20) == 19 ? (int) c.integer(1, s) : (int) c.integer(s, s * 14), h = c.pick(20) == 19 ? (int) c.integer(1, s) : (int) c.integer(s, s * 14);
    if (big) { unsigned nx, ny; gen::bigSize(c, nx, ny, 72000); width = c.pick(4) ? 2 : 5; s = width; w = (int) nx * s + (int) c.pick(s); h = (int) ny * s + (int) c.pick(s); }
    int rounds = 1 + (int) c.pick(2); unsigned seed = (unsigned) c.draw(0xffff);
    cv::Mat map(h, w, CV_8UC1, cv::Scalar(0));
    Cells k(width, map, std::max(1, s / 4));
    int N = k.cols * k.rows;
    c.note() << "map " << w << "x" << h << " cells of " << width << " seed " << seed;
    for (int r = 0; r < rounds; ++r) {
        Pose2d start(c.pick(w) + (c.pick(2) ? 0.5 : 0.0), c.pick(h) + (c.pick(2) ? 0.25 : 0.0), 0), goal((double) c.pick(w), (double) c.pick(h), 0);
        c.note() << " start " << start.x << "," << start.y;
        map.setTo(cv::Scalar(0)); srand(seed + r);
        map_generator::Maze<Pose2d> maze(width, map);
        maze.run(start, goal);
        if (N <= 1) { for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) REQUIRE(map.at<uint8_t>(y, x) == 0, "a map too small for two cells is changed"); c.label("less than two cells"); continue; }
        Walls walls(map, k, 0, 0, k.cols, k.rows);
        REQUIRE(reach(walls, k.cols, k.rows, 0) == N, "only " << reach(walls, k.cols, k.rows, 0) << " of " << N << " cells are connected");
        REQUIRE(walls.joined == N - 1, walls.joined << " passages join " << N << " cells");
        if (start.x >= k.cols * k.size || start.y >= k.rows * k.size) c.label("start beyond the last cell");
        if (width < 2) c.label("narrowest cells");
        c.nontrivial(k.cols >= 3 && k.rows >= 3);
    }
}

LAW("C30", "mazes", 120000, 3000000, "a maze of at least 3x3 cells") {
    mazes(c, false);
}

LAW("C30", "mazes-large", 60, 3000, "as mazes with up to 72000 cells; non-trivial: a maze of at least 3x3 cells") { mazes(c, true); }

LAW("C30", "filling_curve", 60, 3000, "the whole curve lies inside of the map") {
    int width = (int) c.integer(2, 4), W = 257 * width + (int) c.integer(0, 3), H = 257 * width + (int) c.integer(0, 3); bool cut = c.pick(4) == 3;
    if (cut) { if (c.boolean()) W = (int) c.integer(1, W); else H = (int) c.integer(1, H); }
    c.note() << "map " << W << "x" << H << " cells of " << width;
    cv::Mat map(H, W, CV_8UC1, cv::Scalar(0));
    map_generator::HilbertCurve<Pose2d> curve(width, map);
    curve.run(Pose2d(1, 1, 0), Pose2d(2, 2, 0));
    Cells k(width, map, 1);
    int nx = std::min(256, k.cols - 1), ny = std::min(256, k.rows - 1);
    if (nx < 1 || ny < 1) { c.label("nothing visible"); return; }
    if (cut) {      // the visible part of the curve still visits every cell
        for (int y = 1; y <= ny; ++y) for (int x = 1; x <= nx; ++x) for (int j = 0; j < width - 1; ++j) for (int i = 0; i < width - 1; ++i) REQUIRE(map.at<uint8_t>(y * width + j, x * width + i) == 255, "cell " << x << "," << y << " is not visited");
        c.label("cut off"); return;
    }
    Walls walls(map, k, 1, 1, 256, 256);
    int deg; REQUIRE(reach(walls, 256, 256, 0, &deg) == 65536, "the curve does not visit all cells");
    REQUIRE(walls.joined == 65535 && deg == 2, walls.joined << " passages, up to " << deg << " at one cell: not a single line");
    c.nontrivial();
}
