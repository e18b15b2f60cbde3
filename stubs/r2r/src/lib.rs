//! The message types of the r2r crate (generated there from the ROS 2 message files), which cannot be built here.
pub mod builtin_interfaces { pub mod msg {
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct Time { pub sec: i32, pub nanosec: u32 }
} }
pub mod std_msgs { pub mod msg {
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct Header { pub stamp: crate::builtin_interfaces::msg::Time, pub frame_id: std::string::String }
} }
pub mod sensor_msgs { pub mod msg {
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct PointField { pub name: std::string::String, pub offset: u32, pub datatype: u8, pub count: u32 }
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct PointCloud2 {
        pub header: crate::std_msgs::msg::Header,
        pub height: u32,
        pub width: u32,
        pub fields: Vec<PointField>,
        pub is_bigendian: bool,
        pub point_step: u32,
        pub row_step: u32,
        pub data: Vec<u8>,
        pub is_dense: bool,
    }
} }
